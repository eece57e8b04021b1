// Model runtime, compiled to IR and linked with every harness: the parts of the
// C/C++ runtime that live only in shared libraries (no IR available), written
// against their documented contracts.  Everything templated in libstdc++ is the
// real code; it is instantiated here or in the harness.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <stdexcept>
#include <typeinfo>
#include <map>
#include <list>
#include <charconv>
#include <unordered_map>
#include <functional>
#include <regex>
#include <locale>
#include <cxxabi.h>
extern "C" {
void *__vs_malloc(size_t, int kind);
void __vs_free(void *, int kind);
size_t __vs_alloc_size(void *);
[[noreturn]] void __vs_unwind(void *exc);
[[noreturn]] void __vs_fail(const char *);
[[noreturn]] void __vs_exit();
void __vs_fmtsym();
int __vs_fmt_double(char *, size_t, int, double);
int __vs_parse_double(const char *, size_t, double *);
bool vs_is_concrete(uint64_t);
bool vs_fmt_exact_flag = false;
void vs_fmt_exact(bool b) { vs_fmt_exact_flag = b; }
// ---------------------------------------------------------------- malloc
void *malloc(size_t n) { return __vs_malloc(n, 1); }
void free(void *p) { __vs_free(p, 1); }
void *calloc(size_t a, size_t b) { void *p = __vs_malloc(a * b, 1); if (p) memset(p, 0, a * b); return p; }
void *realloc(void *p, size_t n) { if (!p) return malloc(n); void *q = __vs_malloc(n, 1); if (!q) return q; size_t o = __vs_alloc_size(p); memcpy(q, p, o < n ? o : n); __vs_free(p, 1); return q; }
void *aligned_alloc(size_t, size_t n) { return __vs_malloc(n, 1); }
// ---------------------------------------------------------------- strings
size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char *a, const char *b) { for (;; ++a, ++b) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (; n; --n, ++a, ++b) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char *vs_strchr(const char *s, int c) __asm__("strchr");
char *vs_strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
void *vs_memchr(const void *s, int c, size_t n) __asm__("memchr");
void *vs_memchr(const void *s, int c, size_t n) { const unsigned char *p = (const unsigned char *)s; for (; n; --n, ++p) if (*p == (unsigned char)c) return (void *)p; return nullptr; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
void abort() { __vs_fail("abort"); }
void exit(int) { __vs_exit(); }
[[noreturn]] void __assert_fail(const char *, const char *, unsigned, const char *) { __vs_fail("assert_fail"); }
int *__errno_location() { static int e; return &e; }
int __cxa_atexit(void (*)(void *), void *, void *) { return 0; }
int __cxa_thread_atexit(void (*)(void *), void *, void *) { return 0; }
int atexit(void (*)()) { return 0; }
void *__dso_handle = nullptr;
char __libc_single_threaded = 1;
#define VS_AS(ret, name, args) ret vs_as_##name args __asm__(#name); ret vs_as_##name args
VS_AS(int, __cxa_guard_acquire, (uint64_t *g)) { return *(char *)g == 0; }
VS_AS(void, __cxa_guard_release, (uint64_t *g)) { *(char *)g = 1; }
VS_AS(void, __cxa_guard_abort, (uint64_t *)) {}
VS_AS(void, __cxa_pure_virtual, ()) { __vs_fail("pure_virtual"); }
VS_AS(int, fprintf, (void *, const char *, ...)) { return 0; }
VS_AS(int, printf, (const char *, ...)) { return 0; }
VS_AS(int, puts, (const char *)) { return 0; }
VS_AS(int, putchar, (int)) { return 0; }
VS_AS(size_t, fwrite, (const void *, size_t, size_t n, void *)) { return n; }
VS_AS(int, fputs, (const char *, void *)) { return 0; }
VS_AS(int, fputc, (int, void *)) { return 0; }
VS_AS(int, fflush, (void *)) { return 0; }
unsigned long strtoul_(const char *s, char **end, int base, bool sgn, int *ovf) {
  // C grammar: spaces, sign, digits (0x prefix when base is 16 or 0)
  const char *p = s; bool neg = false; *ovf = 0;
  while (*p == ' ' || (*p >= '\t' && *p <= '\r')) ++p;
  if (*p == '+') ++p; else if (*p == '-') { neg = true; ++p; }
  auto dig = [](char c) -> int { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; };
  if ((base == 16 || base == 0) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig(p[2]) < 16) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; bool any = false, over = false;
  for (; dig(*p) < base; ++p) { any = true; unsigned long n; if (__builtin_mul_overflow(v, (unsigned long)base, &n) || __builtin_add_overflow(n, (unsigned long)dig(*p), &n)) over = true; else v = n; }
  if (!any) { if (end) *end = (char *)s; return 0; }
  if (end) *end = (char *)p;
  if (sgn) { if (over || v > (neg ? 1ul << 63 : (1ul << 63) - 1)) { *ovf = 1; return neg ? 1ul << 63 : (1ul << 63) - 1; } }
  else if (over) { *ovf = 1; return ~0ul; }
  return neg ? 0 - v : v;
}
#define VS_STRTO(T, name, sgn) \
  T vs_c23_##name(const char *s, char **e, int b) __asm__("__isoc23_" #name); T vs_c23_##name(const char *s, char **e, int b) { int o; T r = (T)strtoul_(s, e, b, sgn, &o); if (o) *__errno_location() = 34; return r; } \
  T vs_c_##name(const char *s, char **e, int b) __asm__(#name); T vs_c_##name(const char *s, char **e, int b) { return vs_c23_##name(s, e, b); }
VS_STRTO(unsigned long, strtoul, false) VS_STRTO(unsigned long long, strtoull, false) VS_STRTO(long, strtol, true) VS_STRTO(long long, strtoll, true) VS_STRTO(intmax_t, strtoimax, true) VS_STRTO(uintmax_t, strtoumax, false)
struct VsLconv { const char *p[10]; char c[64]; };
VS_AS(void *, localeconv, ()) { static VsLconv l; l.p[0] = "."; for (int i = 1; i < 10; ++i) l.p[i] = ""; return &l; }
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) noexcept { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) noexcept { return isalpha(c) || isdigit(c); }
int isxdigit(int c) noexcept { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int tolower(int c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
// ---------------------------------------------------------------- exceptions
struct VsExc { const std::type_info *ti; void (*dtor)(void *); long handlers; long refs; VsExc *next; void *adjusted; long rethrown, pad; };
static VsExc *vs_caught; static int vs_uncaught;
static VsExc *hdr(void *o) { return (VsExc *)((char *)o - 64); }
void *__cxa_allocate_exception(size_t n) noexcept { char *p = (char *)__vs_malloc(n + 64, 4); memset(p, 0, 64); return p + 64; }
void __cxa_free_exception(void *o) noexcept { __vs_free((char *)o - 64, 4); }
void __cxa_throw(void *o, std::type_info *ti, void (*d)(void *)) { VsExc *h = hdr(o); h->ti = ti; h->dtor = d; h->handlers = 0; h->refs = 1; vs_uncaught++; __vs_unwind(o); }
static void vs_release(VsExc *h) { if (--h->refs == 0) { void *o = (char *)h + 64; if (h->dtor) h->dtor(o); __vs_free(h, 4); } }
void *__cxa_begin_catch(void *o) noexcept { VsExc *h = hdr(o); vs_uncaught--; if (h->handlers < 0) h->handlers = -h->handlers; if (h->handlers++ == 0 || vs_caught != h) { h->next = vs_caught; vs_caught = h; } return h->adjusted; }
void *__cxa_get_exception_ptr(void *o) noexcept { return hdr(o)->adjusted; }
void __cxa_end_catch() { VsExc *h = vs_caught; if (!h) return; if (h->handlers < 0) { if (++h->handlers == 0) vs_caught = h->next; return; } if (--h->handlers == 0) { vs_caught = h->next; vs_release(h); } }
void __cxa_rethrow() { VsExc *h = vs_caught; if (!h) __vs_fail("rethrow"); h->handlers = -h->handlers; vs_uncaught++; __vs_unwind((char *)h + 64); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
void __cxa_call_unexpected(void *) { __vs_fail("unexpected"); }
int __gxx_personality_v0() { return 0; }
void __clang_call_terminate(void *) { __vs_fail("terminate"); }
void *vs_vt_class[8] __asm__("_ZTVN10__cxxabiv117__class_type_infoE"), *vs_vt_si[8] __asm__("_ZTVN10__cxxabiv120__si_class_type_infoE"), *vs_vt_vmi[8] __asm__("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
// type_info layouts of the Itanium ABI
struct TI { void **vt; const char *name; }; struct SI { TI t; TI *base; }; struct VMI { TI t; unsigned flags, n; struct B { TI *base; long off; } b[1]; };
static char *vs_upcast(char *obj, TI *from, TI *to) {
  if (from == to) return obj;
  if (from->vt == vs_vt_si + 2) return vs_upcast(obj, ((SI *)from)->base, to);
  if (from->vt == vs_vt_vmi + 2) { VMI *v = (VMI *)from; for (unsigned i = 0; i < v->n; ++i) { long fl = v->b[i].off; long o = fl >> 8; if (fl & 1) o = *(long *)(*(char **)obj + o); char *r = vs_upcast(obj + o, v->b[i].base, to); if (r) return r; } }
  return nullptr;
}
VS_AS(void *, __dynamic_cast, (const void *p, const void *, const void *dst, ptrdiff_t)) {
  char **vt = *(char ***)p; ptrdiff_t top = ((ptrdiff_t *)vt)[-2]; TI *dyn = ((TI **)vt)[-1]; return vs_upcast((char *)p + top, dyn, (TI *)dst);
}
} // extern "C"
void *operator new(size_t n) { void *p = __vs_malloc(n, 2); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = __vs_malloc(n, 3); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return __vs_malloc(n, 2); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return __vs_malloc(n, 3); }
void operator delete(void *p) noexcept { __vs_free(p, 2); }
void operator delete[](void *p) noexcept { __vs_free(p, 3); }
void operator delete(void *p, size_t) noexcept { __vs_free(p, 2); }
void operator delete[](void *p, size_t) noexcept { __vs_free(p, 3); }
void operator delete(void *p, const std::nothrow_t &) noexcept { __vs_free(p, 2); }

namespace std {
const nothrow_t nothrow{};
void terminate() noexcept { __vs_fail("terminate"); }
bool uncaught_exception() noexcept { return vs_uncaught > 0; }
int uncaught_exceptions() noexcept { return vs_uncaught; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info *, void **, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info *, void **) const { return false; }
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {} const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_exception::~bad_exception() noexcept {} const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
static const char *vs_dup(const char *p, size_t n) { char *q = (char *)malloc(n + 1); if (!q) throw bad_alloc(); memcpy(q, p, n); q[n] = 0; return q; }
__cow_string::__cow_string() : _M_p(vs_dup("", 0)) {}
__cow_string::__cow_string(const string &s) : _M_p(vs_dup(s.data(), s.size())) {}
__cow_string::__cow_string(const char *p, size_t n) : _M_p(vs_dup(p, n)) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(vs_dup(o._M_p, strlen(o._M_p))) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { free((void *)_M_p); _M_p = vs_dup(o._M_p, strlen(o._M_p)); return *this; }
__cow_string::~__cow_string() { free((void *)_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(vs_dup(o._M_p, strlen(o._M_p))) {}
logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
#define VS_LE(T, B) T::T(const string &s) : B(s) {} T::T(const char *s) : B(s) {} T::~T() noexcept {}
VS_LE(domain_error, logic_error) VS_LE(invalid_argument, logic_error) VS_LE(length_error, logic_error) VS_LE(out_of_range, logic_error)
VS_LE(range_error, runtime_error) VS_LE(overflow_error, runtime_error) VS_LE(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); } void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); } void __throw_domain_error(const char *s) { throw domain_error(s); } void __throw_invalid_argument(const char *s) { throw invalid_argument(s); } void __throw_length_error(const char *s) { throw length_error(s); } void __throw_out_of_range(const char *s) { throw out_of_range(s); } void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); } void __throw_runtime_error(const char *s) { throw runtime_error(s); } void __throw_range_error(const char *s) { throw range_error(s); } void __throw_overflow_error(const char *s) { throw overflow_error(s); } void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
regex_error::regex_error(regex_constants::error_type e) : runtime_error("regex_error"), _M_code(e) {}
regex_error::~regex_error() throw() {}
void __throw_regex_error(regex_constants::error_type e) { throw regex_error(e); }
// ---------------------------------------------------------------- containers
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept { if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; } else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
// The observable contract is the ordering; nodes are black and the tree is not rebalanced.
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept {
  if (h._M_left == z) { _Rb_tree_node_base *n = _Rb_tree_increment(z); h._M_left = n; }
  if (h._M_right == z) { if (z->_M_left) { _Rb_tree_node_base *m = z->_M_left; while (m->_M_right) m = m->_M_right; h._M_right = m; } else h._M_right = z->_M_parent; }
  auto repl = [&](_Rb_tree_node_base *o, _Rb_tree_node_base *n) { _Rb_tree_node_base *p = o->_M_parent; if (h._M_parent == o) h._M_parent = n; else if (p->_M_left == o) p->_M_left = n; else p->_M_right = n; if (n) n->_M_parent = p; };
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else { _Rb_tree_node_base *y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t pr[] = {13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273}; for (size_t p : pr) if (p >= n) { _M_next_resize = p; return p; } _M_next_resize = n | 1; return n | 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const { if (e + i > b || b == 1) { size_t n = e + i > b * 2 ? e + i : b * 2; size_t k = _M_next_bkt(n); if (k > b) return {true, k}; } return {false, 0}; }
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *s = (const unsigned char *)p; size_t h = seed; for (size_t i = 0; i < n; ++i) h = (h ^ s[i]) * 1099511628211ull; return h; }
// ---------------------------------------------------------------- number conversion
from_chars_result from_chars(const char *f, const char *l, double &v, chars_format) noexcept {
  // grammar of strtod without leading space or '+', no hexadecimal prefix
  const char *p = f; bool neg = false; if (p != l && *p == '-') { neg = true; ++p; }
  auto lit = [&](const char *q, const char *w) { while (*w) { if (q == l || ((*q | 32) != *w)) return (const char *)nullptr; ++q; ++w; } return q; };
  const char *q;
  if ((q = lit(p, "inf"))) { const char *q2 = lit(q, "inity"); if (q2) q = q2; v = neg ? -__builtin_inf() : __builtin_inf(); return {q, errc()}; }
  if ((q = lit(p, "nan"))) { if (q != l && *q == '(') { const char *r = q + 1; while (r != l && (isalnum((unsigned char)*r) || *r == '_')) ++r; if (r != l && *r == ')') q = r + 1; } v = neg ? -__builtin_nan("") : __builtin_nan(""); return {q, errc()}; }
  uint64_t m = 0; int nd = 0, scale = 0; bool any = false, big = false; const char *ds = p;
  auto dg = [](char c) { return c >= '0' && c <= '9'; };
  for (; p != l && dg(*p); ++p) { any = true; if (m < 100000000000000ull) m = m * 10 + (*p - '0'); else big = true; }
  if (p != l && *p == '.') { const char *save = p; ++p; if (any || (p != l && dg(*p))) { for (; p != l && dg(*p); ++p) { any = true; if (m < 100000000000000ull) { m = m * 10 + (*p - '0'); --scale; } else big = true; } } else p = save; }
  if (!any) return {f, errc::invalid_argument};
  if (p != l && (*p == 'e' || *p == 'E')) { const char *save = p; ++p; bool en = false; if (p != l && (*p == '+' || *p == '-')) { en = *p == '-'; ++p; } if (p != l && dg(*p)) { int ex = 0; for (; p != l && dg(*p); ++p) if (ex < 10000) ex = ex * 10 + (*p - '0'); scale += en ? -ex : ex; } else p = save; }
  (void)nd; (void)ds;
  double r;
  if (m == 0 && !big) r = 0.0;
  else if (!big && scale >= 0 && scale <= 22 && m < (1ull << 53)) { static const double t[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22}; r = (double)m * t[scale]; }
  else if (!big && scale < 0 && scale >= -22 && m < (1ull << 53)) { static const double t[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22}; r = (double)m / t[-scale]; }
  else { // outside the exact fast path: only concrete text
    double c; if (!__vs_parse_double(f, p - f, &c)) __vs_fail("from_chars_symbolic_out_of_range");
    if (c != 0 && c - c != 0) return {p, errc::result_out_of_range};
    if (c == 0) return {p, errc::result_out_of_range};
    v = c; return {p, errc()};
  }
  v = neg ? -r : r; return {p, errc()};
}
} // namespace std
extern "C" double strtod(const char *s, char **e) noexcept {
  const char *p = s; while (isspace((unsigned char)*p)) ++p; if (*p == '+') ++p; double v = 0; auto r = std::from_chars(p, p + strlen(p), v, std::chars_format::general); if (r.ptr == p) { if (e) *e = (char *)s; return 0; } if (e) *e = (char *)r.ptr; return v;
}
// ---------------------------------------------------------------- locale, ctype<char> ("C" locale only)
struct VsCtypeAccess;
namespace std {
locale::facet::~facet() {}
static locale::_Impl *vs_impl();
locale::locale() noexcept : _M_impl(vs_impl()) {}
locale::locale(const locale &) noexcept : _M_impl(vs_impl()) {}
locale::~locale() noexcept {}
const locale &locale::operator=(const locale &) noexcept { return *this; }
const locale &locale::classic() { static locale l; return l; }
bool locale::operator==(const locale &) const noexcept { return true; }
string locale::name() const { return "C"; }
locale::id ctype<char>::id;
const size_t ctype<char>::table_size;
static ctype_base::mask vs_tab[257];
static bool vs_tab_init() {
  for (int c = 0; c < 256; ++c) { ctype_base::mask m = 0; bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', di = c >= '0' && c <= '9'; bool pr = c >= 32 && c < 127;
    if (up) m |= ctype_base::upper; if (lo) m |= ctype_base::lower; if (up || lo) m |= ctype_base::alpha; if (di) m |= ctype_base::digit; if (di || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) m |= ctype_base::xdigit;
    if (c == ' ' || (c >= 9 && c <= 13)) m |= ctype_base::space; if (c == ' ' || c == 9) m |= ctype_base::blank; if (c < 32 || c == 127) m |= ctype_base::cntrl; if (pr) m |= ctype_base::print; if (pr && c != ' ' && !up && !lo && !di) m |= ctype_base::punct; vs_tab[c] = m; }
  return true;
}
static bool vs_tab_done = vs_tab_init();
ctype<char>::ctype(const mask *, bool, size_t r) : facet(r), _M_c_locale_ctype(nullptr), _M_del(false), _M_toupper(nullptr), _M_tolower(nullptr), _M_table(vs_tab), _M_widen_ok(1), _M_narrow_ok(1) { for (int i = 0; i < 256; ++i) { _M_widen[i] = i; _M_narrow[i] = i; } }
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return c >= 'a' && c <= 'z' ? c - 32 : c; }
const char *ctype<char>::do_toupper(char *lo, const char *hi) const { for (; lo != hi; ++lo) *lo = do_toupper(*lo); return hi; }
char ctype<char>::do_tolower(char c) const { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
const char *ctype<char>::do_tolower(char *lo, const char *hi) const { for (; lo != hi; ++lo) *lo = do_tolower(*lo); return hi; }
const ctype_base::mask *ctype<char>::classic_table() noexcept { return vs_tab; }
void ctype<char>::_M_widen_init() const { _M_widen_ok = 1; }
void ctype<char>::_M_narrow_init() const { _M_narrow_ok = 1; }
size_t locale::id::_M_id() const noexcept { return this == &std::ctype<char>::id ? 0 : this == &std::__cxx11::collate<char>::id ? 1 : 2; }
}
struct VsCtype : std::ctype<char> { VsCtype() : std::ctype<char>(nullptr, false, 1) {} ~VsCtype() {} };
static const std::ctype<char> &vs_ctype() { static VsCtype c; return c; }
extern "C" const std::ctype<char> &vs_use_ctype(const std::locale &) __asm__("_ZSt9use_facetISt5ctypeIcEERKT_RKSt6locale");
const std::ctype<char> &vs_use_ctype(const std::locale &) { return vs_ctype(); }
extern "C" bool vs_has_ctype(const std::locale &) __asm__("_ZSt9has_facetISt5ctypeIcEEbRKSt6locale") ;
bool vs_has_ctype(const std::locale &) { return true; }
extern "C" const std::ctype<char> *vs_try_ctype(const std::locale &) __asm__("_ZSt15__try_use_facetISt5ctypeIcEEPKT_RKSt6locale");
const std::ctype<char> *vs_try_ctype(const std::locale &) { return &vs_ctype(); }
// collate<char> of the "C" locale: transform is the identity
struct VsCollate : std::collate<char> { VsCollate() : std::collate<char>(1) {} ~VsCollate() {} };
extern "C" const std::collate<char> &vs_use_collate(const std::locale &) __asm__("_ZSt9use_facetINSt7__cxx117collateIcEEERKT_RKSt6locale");
namespace std { template class __cxx11::collate<char>; template <> int collate<char>::_M_compare(const char *a, const char *b) const noexcept { return strcmp(a, b); } template <> size_t collate<char>::_M_transform(char *d, const char *s, size_t n) const noexcept { size_t k = strlen(s); if (n) { size_t m = k < n - 1 ? k : n - 1; memcpy(d, s, m); d[m] = 0; } return k; } __c_locale locale::facet::_S_get_c_locale() { return nullptr; } void locale::facet::_S_destroy_c_locale(__c_locale &) {} __c_locale locale::facet::_S_clone_c_locale(__c_locale &) noexcept { return nullptr; } }
const std::collate<char> &vs_use_collate(const std::locale &) { static VsCollate c; return c; }
// the layout of locale::_Impl: reference count, facets, number of facets, caches, names
namespace std { static locale::_Impl *vs_impl() { static const locale::facet *fs[4]; static struct { int refs; const locale::facet **f; size_t n; const locale::facet **c; char **names; } im; if (!im.f) { fs[0] = &vs_ctype(); fs[1] = &vs_use_collate(*(locale *)nullptr); im.refs = 1; im.f = fs; im.n = 2; } return (locale::_Impl *)&im; } }
template class std::__cxx11::basic_string<char>;
template std::string std::operator+(const char *, const std::string &);
extern "C" int _ZNSt8ios_base6xallocEv() { static int n = 4; return n++; }

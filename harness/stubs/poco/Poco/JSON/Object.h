// A model of the part of Poco::JSON and Poco::Dynamic that the adapter uses, after the behaviour of Poco 1.13.
// The native replays of the checks use the real library.
#pragma once
#include <algorithm>
#include <cstdint>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>
namespace Poco {
class Exception : public std::runtime_error { public: using std::runtime_error::runtime_error; };
template <class T> class SharedPtr { // reference counted; a null pointer may be held but not used
  T *p = nullptr; int *n = nullptr; void rel() { if (n && !--*n) { delete p; delete n; } }
public:
  SharedPtr() {} SharedPtr(T *x) : p(x), n(new int(1)) {} SharedPtr(const SharedPtr &o) : p(o.p), n(o.n) { if (n) ++*n; } SharedPtr &operator=(const SharedPtr &o) { SharedPtr t(o); std::swap(p, t.p); std::swap(n, t.n); return *this; } ~SharedPtr() { rel(); }
  T *get() const { return p; } bool isNull() const { return !p; } T *operator->() const { if (!p) throw Exception("Null pointer"); return p; } T &operator*() const { if (!p) throw Exception("Null pointer"); return *p; } operator bool() const { return p != nullptr; } bool operator==(const SharedPtr &o) const { return p == o.p; }
};
namespace JSON { class Object; class Array; }
namespace Dynamic {
template <int> struct KindOf {}; // stands for the type_info of a fundamental type
class Var {
  enum K { E, B, I, D, S, O, A } k = E; bool b = false; int64_t i = 0; double d = 0; std::string s; SharedPtr<JSON::Object> o; SharedPtr<JSON::Array> a;
  template <class T> T num() const { switch (k) { case B: return (T)b; case I: return (T)i; case D: if (std::is_integral<T>::value && !std::is_same<T, bool>::value && !((d < 9223372036854775808.0) & (d >= -9223372036854775808.0))) throw Exception("Value out of range."); return (T)d; default: throw Exception("Not implemented"); } }
  const void *ext(const std::type_info &t) const { if (k == E) throw Exception("Can not extract empty value."); if (t != type()) throw Exception("Can not convert"); switch (k) { case B: return &b; case I: return &i; case D: return &d; case S: return &s; case O: return &o; default: return &a; } }
  template <class T> struct Tag {}; bool conv(Tag<bool>) const { if (k == E) throw Exception("Can not convert empty value."); return num<bool>(); } int64_t conv(Tag<int64_t>) const { if (k == E) throw Exception("Can not convert empty value."); return num<int64_t>(); } double conv(Tag<double>) const { if (k == E) throw Exception("Can not convert empty value."); return num<double>(); } std::string conv(Tag<std::string>) const { if (k == E) throw Exception("Can not convert empty value."); if (k != S) throw Exception("not modelled"); return s; }
public:
  Var(); Var(const Var &); Var &operator=(const Var &); ~Var(); Var(bool x); Var(int x); Var(long x); Var(double x); Var(const std::string &x); Var(const char *x); Var(const SharedPtr<JSON::Object> &x); Var(const SharedPtr<JSON::Array> &x);
  inline const std::type_info &type() const; bool isEmpty() const { return k == E; } bool isBoolean() const { return k == B; } bool isString() const { return k == S; } bool isNumeric() const { return (k == B) | (k == I) | (k == D); } bool isInteger() const { return (k == B) | (k == I); }
  template <class T> T convert() const { return conv(Tag<T>()); } template <class T> const T &extract() const { return *(const T *)ext(typeid(T)); }
};
}
namespace JSON {
class Array { public: typedef std::vector<Dynamic::Var> ValueVec; typedef ValueVec::const_iterator ConstIterator; typedef SharedPtr<Array> Ptr; private: ValueVec v; public: size_t size() const { return v.size(); } ConstIterator begin() const { return v.begin(); } ConstIterator end() const { return v.end(); } void add(const Dynamic::Var &x) { v.push_back(x); } Array &set(unsigned k, const Dynamic::Var &x) { v[k] = x; return *this; } };
class Object { public: typedef std::map<std::string, Dynamic::Var> ValueMap; typedef ValueMap::value_type ValueType; typedef ValueMap::const_iterator ConstIterator; typedef SharedPtr<Object> Ptr; private: ValueMap m; public: size_t size() const { return m.size(); } ConstIterator begin() const { return m.begin(); } ConstIterator end() const { return m.end(); } Object &set(const std::string &n, const Dynamic::Var &x) { m[n] = x; return *this; } };
}
namespace Dynamic {
inline Var::Var() {} inline Var::Var(const Var &) = default; inline Var &Var::operator=(const Var &) = default; inline Var::~Var() {} inline Var::Var(bool x) : k(B), b(x) {} inline Var::Var(int x) : k(I), i(x) {} inline Var::Var(long x) : k(I), i(x) {} inline Var::Var(double x) : k(D), d(x) {} inline Var::Var(const std::string &x) : k(S), s(x) {} inline Var::Var(const char *x) : k(S), s(x) {} inline Var::Var(const SharedPtr<JSON::Object> &x) : k(O), o(x) {} inline Var::Var(const SharedPtr<JSON::Array> &x) : k(A), a(x) {}
inline const std::type_info &Var::type() const { switch (k) { case E: return typeid(KindOf<0>); case B: return typeid(KindOf<1>); case I: return typeid(KindOf<2>); case D: return typeid(KindOf<3>); case S: return typeid(KindOf<4>); case O: return typeid(JSON::Object::Ptr); default: return typeid(JSON::Array::Ptr); } }
}
}

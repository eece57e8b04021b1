// A model of the part of JsonCpp that the adapter uses, after the documentation and behaviour of JsonCpp 1.9.
// The native replays of the checks use the real library, so that every difference in observed values shows up.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace Json {
enum ValueType { nullValue = 0, intValue, uintValue, realValue, stringValue, booleanValue, arrayValue, objectValue };
typedef unsigned ArrayIndex;
class LogicError : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class Value;
class ValueIteratorBase {
protected:
  typename std::map<std::string, Value>::const_iterator m; const Value *a = nullptr; ArrayIndex i = 0; bool arr = false; friend class Value;
public:
  inline bool operator==(const ValueIteratorBase &o) const; inline bool operator!=(const ValueIteratorBase &o) const;
  inline Value key() const;
};
class ValueConstIterator : public ValueIteratorBase {
public:
  inline const Value &operator*() const; inline const Value *operator->() const;
  inline ValueConstIterator &operator++(); ValueConstIterator operator++(int) { ValueConstIterator t(*this); ++*this; return t; }
  inline ValueConstIterator &operator--(); ValueConstIterator operator--(int) { ValueConstIterator t(*this); --*this; return t; }
};
class Value {
  ValueType t; int64_t i = 0; uint64_t u = 0; double d = 0; bool b = false; std::string s; std::vector<Value> v; std::map<std::string, Value> o; friend class ValueIteratorBase; friend class ValueConstIterator;
  static bool integral(double x) { return __builtin_trunc(x) == x; }
public:
  typedef ValueConstIterator const_iterator; typedef int64_t Int64; typedef uint64_t UInt64; typedef int Int;
  Value(ValueType k = nullValue) : t(k) {} Value(int x) : t(intValue), i(x) {} Value(unsigned x) : t(uintValue), u(x) {} Value(long x) : t(intValue), i(x) {} Value(unsigned long x) : t(uintValue), u(x) {} Value(long long x) : t(intValue), i(x) {} Value(unsigned long long x) : t(uintValue), u(x) {} Value(double x) : t(realValue), d(x) {} Value(bool x) : t(booleanValue), b(x) {} Value(const std::string &x) : t(stringValue), s(x) {} Value(const char *x) : t(stringValue), s(x) {}
  ValueType type() const { return t; }
  bool isNull() const { return t == nullValue; } bool isBool() const { return t == booleanValue; } bool isString() const { return t == stringValue; } bool isArray() const { return t == arrayValue; } bool isObject() const { return t == objectValue; }
  bool isDouble() const { return (t == intValue) | (t == uintValue) | (t == realValue); } bool isNumeric() const { return isDouble(); }
  bool isInt() const { switch (t) { case intValue: return i >= INT32_MIN && i <= INT32_MAX; case uintValue: return u <= INT32_MAX; case realValue: return d >= INT32_MIN && d <= INT32_MAX && integral(d); default: return false; } }
  bool isInt64() const { switch (t) { case intValue: return true; case uintValue: return u <= (uint64_t)INT64_MAX; case realValue: return d >= -9223372036854775808.0 && d < 9223372036854775808.0 && integral(d); default: return false; } }
  bool isUInt64() const { switch (t) { case intValue: return i >= 0; case uintValue: return true; case realValue: return d >= 0 && d < 18446744073709551616.0 && integral(d); default: return false; } }
  bool isIntegral() const { switch (t) { case intValue: case uintValue: return true; case realValue: return d >= -9223372036854775808.0 && d < 18446744073709551616.0 && integral(d); default: return false; } }
  int asInt() const { switch (t) { case intValue: if (!isInt()) throw LogicError("LargestInt out of Int range"); return (int)i; case uintValue: if (!isInt()) throw LogicError("LargestUInt out of Int range"); return (int)u; case realValue: if (!(d >= INT32_MIN && d <= INT32_MAX)) throw LogicError("double out of Int range"); return (int)d; case nullValue: return 0; case booleanValue: return b; default: throw LogicError("Value is not convertible to Int."); } }
  int64_t asInt64() const { switch (t) { case intValue: return i; case uintValue: if (!isInt64()) throw LogicError("LargestUInt out of Int64 range"); return (int64_t)u; case realValue: if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) throw LogicError("double out of Int64 range"); return (int64_t)d; case nullValue: return 0; case booleanValue: return b; default: throw LogicError("Value is not convertible to Int64."); } }
  int64_t asLargestInt() const { return asInt64(); }
  double asDouble() const { switch (t) { case intValue: return (double)i; case uintValue: return (double)u; case realValue: return d; case nullValue: return 0; case booleanValue: return b; default: throw LogicError("Value is not convertible to double."); } }
  bool asBool() const { switch (t) { case booleanValue: return b; case nullValue: return false; case intValue: return i != 0; case uintValue: return u != 0; case realValue: return d != 0; default: throw LogicError("Value is not convertible to bool."); } }
  std::string asString() const { switch (t) { case stringValue: return s; case nullValue: return ""; case booleanValue: return b ? "true" : "false"; case intValue: return std::to_string(i); default: throw LogicError("Type is not convertible to string"); } }
  ArrayIndex size() const { return t == arrayValue ? (ArrayIndex)v.size() : t == objectValue ? (ArrayIndex)o.size() : 0; } bool empty() const { return (t == nullValue || t == arrayValue || t == objectValue) && !size(); }
  bool isMember(const std::string &n) const { return t == objectValue && o.find(n) != o.end(); }
  Value &append(const Value &x) { t = arrayValue; v.push_back(x); return v.back(); } Value &operator[](const std::string &n) { t = objectValue; return o[n]; } const Value &operator[](ArrayIndex k) const { return v[k]; }
  bool operator==(const Value &x) const { if (t != x.t) return false; switch (t) { case nullValue: return true; case intValue: return i == x.i; case uintValue: return u == x.u; case realValue: return d == x.d; case stringValue: return s == x.s; case booleanValue: return b == x.b; case arrayValue: return v == x.v; default: return o == x.o; } } bool operator!=(const Value &x) const { return !(*this == x); }
  ValueConstIterator begin() const { ValueConstIterator r; r.arr = t != objectValue; r.a = this; r.m = o.begin(); return r; } ValueConstIterator end() const { ValueConstIterator r; r.arr = t != objectValue; r.a = this; r.i = size(); r.m = o.end(); return r; }
};
inline Value ValueIteratorBase::key() const { return arr ? Value(i) : Value(m->first); }
inline const Value &ValueConstIterator::operator*() const { return arr ? a->v[i] : m->second; } inline const Value *ValueConstIterator::operator->() const { return &**this; }
inline bool ValueIteratorBase::operator==(const ValueIteratorBase &o) const { return arr ? (o.arr && i == o.i) : m == o.m; } inline bool ValueIteratorBase::operator!=(const ValueIteratorBase &o) const { return !(*this == o); }
inline ValueConstIterator &ValueConstIterator::operator++() { if (arr) ++i; else ++m; return *this; } inline ValueConstIterator &ValueConstIterator::operator--() { if (arr) --i; else --m; return *this; }
} // namespace Json

// A model of the part of json11 that the adapter uses, after the sources of json11 1.0: shared immutable values, numbers
// that are an int or a double, and accessors that give a default for a value of another type.
#pragma once
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace json11 {
class Json {
public:
  enum Type { NUL, NUMBER, BOOL, STRING, ARRAY, OBJECT };
  typedef std::vector<Json> array; typedef std::map<std::string, Json> object;
private:
  struct Node { Type t; bool dbl = false, b = false; int i = 0; double d = 0; std::string s; array a; object o; explicit Node(Type k) : t(k) {} };
  std::shared_ptr<Node> p;
public:
  Json() noexcept : p(std::make_shared<Node>(NUL)) {} Json(std::nullptr_t) noexcept : Json() {}
  Json(double v) : p(std::make_shared<Node>(NUMBER)) { p->dbl = true; p->d = v; } Json(int v) : p(std::make_shared<Node>(NUMBER)) { p->i = v; } Json(bool v) : p(std::make_shared<Node>(BOOL)) { p->b = v; }
  Json(const std::string &v) : p(std::make_shared<Node>(STRING)) { p->s = v; } Json(const char *v) : Json(std::string(v)) {} Json(const array &v) : p(std::make_shared<Node>(ARRAY)) { p->a = v; } Json(const object &v) : p(std::make_shared<Node>(OBJECT)) { p->o = v; } Json(void *) = delete;
  static Json parse(const std::string &in, std::string &err); // defined where it is used
  Type type() const { return p->t; } bool is_null() const { return p->t == NUL; } bool is_number() const { return p->t == NUMBER; } bool is_bool() const { return p->t == BOOL; } bool is_string() const { return p->t == STRING; } bool is_array() const { return p->t == ARRAY; } bool is_object() const { return p->t == OBJECT; }
  double number_value() const { return p->dbl ? p->d : (double)p->i; } int int_value() const { return p->dbl ? static_cast<int>(p->d) : p->i; } bool bool_value() const { return p->b; }
  const std::string &string_value() const { static const std::string e; return is_string() ? p->s : e; } const array &array_items() const { static const array e; return is_array() ? p->a : e; } const object &object_items() const { static const object e; return is_object() ? p->o : e; }
  bool operator==(const Json &x) const { if (p == x.p) return true; if (p->t != x.p->t) return false; switch (p->t) { case NUL: return true; case NUMBER: return number_value() == x.number_value(); case BOOL: return p->b == x.p->b; case STRING: return p->s == x.p->s; case ARRAY: return p->a == x.p->a; default: return p->o == x.p->o; } } bool operator!=(const Json &x) const { return !(*this == x); }
};
} // namespace json11

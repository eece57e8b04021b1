// A model of the Qt 6 classes that the adapters use. Strings are kept as UTF-8 (the checks use ASCII only).
// The native replays of the checks use the real library.
#pragma once
#include <cstdint>
#include <initializer_list>
#include <map>
#include <memory>
#include <string>
#include <vector>
#define QT_VERSION_CHECK(a, b, c) ((a << 16) | (b << 8) | (c))
#define QT_VERSION QT_VERSION_CHECK(6, 4, 2)
typedef long long qint64; typedef unsigned long long qulonglong; typedef long long qlonglong; typedef long long qsizetype;
class QString { std::string s; public: QString() {} QString(const char *p) : s(p) {} static QString fromStdString(const std::string &x) { QString r; r.s = x; return r; } std::string toStdString() const { return s; } bool operator<(const QString &o) const { return s < o.s; } bool operator==(const QString &o) const { return s == o.s; } };
template <class T> class QList { std::vector<T> v; public: typedef typename std::vector<T>::const_iterator const_iterator; QList() {} QList(std::initializer_list<T> l) : v(l) {} bool contains(const T &x) const { for (auto &e : v) if (e == x) return true; return false; } qsizetype size() const { return (qsizetype)v.size(); } const_iterator begin() const { return v.begin(); } const_iterator end() const { return v.end(); } void append(const T &x) { v.push_back(x); } };
template <class K, class V> class QMap {
  std::map<K, V> m;
public:
  class const_iterator { typename std::map<K, V>::const_iterator i; friend class QMap; public: const K &key() const { return i->first; } const V &value() const { return i->second; } const_iterator &operator++() { ++i; return *this; } const_iterator operator++(int) { const_iterator t(*this); ++i; return t; } const_iterator &operator--() { --i; return *this; } const_iterator operator--(int) { const_iterator t(*this); --i; return t; } bool operator==(const const_iterator &o) const { return i == o.i; } bool operator!=(const const_iterator &o) const { return i != o.i; } };
  QMap() {} qsizetype size() const { return (qsizetype)m.size(); } const_iterator begin() const { const_iterator r; r.i = m.begin(); return r; } const_iterator end() const { const_iterator r; r.i = m.end(); return r; } const_iterator find(const K &k) const { const_iterator r; r.i = m.find(k); return r; } void insert(const K &k, const V &v) { m[k] = v; }
};
// ---- JSON
class QJsonValue; class QJsonArray; class QJsonObject;
class QJsonArray {
  std::shared_ptr<std::vector<QJsonValue>> p; inline std::vector<QJsonValue> &w();
public:
  class const_iterator { const std::vector<QJsonValue> *v = nullptr; long k = 0; friend class QJsonArray; public: inline QJsonValue operator*() const; const_iterator &operator++() { ++k; return *this; } const_iterator operator++(int) { const_iterator t(*this); ++k; return t; } const_iterator &operator--() { --k; return *this; } const_iterator operator--(int) { const_iterator t(*this); --k; return t; } const_iterator &operator+=(qsizetype n) { k += n; return *this; } bool operator==(const const_iterator &o) const { return k == o.k; } bool operator!=(const const_iterator &o) const { return k != o.k; } };
  inline qsizetype size() const; inline const_iterator begin() const; inline const_iterator end() const; inline void append(const QJsonValue &x);
};
class QJsonObject {
  std::shared_ptr<std::vector<std::pair<QString, QJsonValue>>> p; inline std::vector<std::pair<QString, QJsonValue>> &w();
public:
  class const_iterator { const std::vector<std::pair<QString, QJsonValue>> *v = nullptr; long k = 0; friend class QJsonObject; public: inline QString key() const; inline QJsonValue value() const; const_iterator &operator++() { ++k; return *this; } const_iterator operator++(int) { const_iterator t(*this); ++k; return t; } const_iterator &operator--() { --k; return *this; } const_iterator operator--(int) { const_iterator t(*this); --k; return t; } bool operator==(const const_iterator &o) const { return k == o.k; } bool operator!=(const const_iterator &o) const { return k != o.k; } };
  inline qsizetype size() const; inline const_iterator begin() const; inline const_iterator end() const; inline const_iterator find(const QString &n) const; inline void insert(const QString &n, const QJsonValue &x);
};
class QJsonValue {
public: enum Type { Null, Bool, Double, String, Array, Object };
private: Type t = Null; bool in = false, b = false; qint64 i = 0; double d = 0; QString s; QJsonArray a; QJsonObject o;
  static bool conv(double x, qint64 &n) { if (!((x < 9223372036854775808.0) & (x >= -9223372036854775808.0)) || __builtin_trunc(x) != x) return false; n = (qint64)x; return true; }
public:
  QJsonValue(Type k = Null) : t(k) {} QJsonValue(bool x) : t(Bool), b(x) {} QJsonValue(int x) : t(Double), in(true), i(x) {} QJsonValue(qint64 x) : t(Double), in(true), i(x) {} QJsonValue(double x) : t(Double), d(x) { if (x < 9007199254740992.0 && x > -9007199254740992.0) in = conv(x, i); } QJsonValue(const QString &x) : t(String), s(x) {} QJsonValue(const QJsonArray &x) : t(Array), a(x) {} QJsonValue(const QJsonObject &x) : t(Object), o(x) {}
  bool isNull() const { return t == Null; } bool isBool() const { return t == Bool; } bool isDouble() const { return t == Double; } bool isString() const { return t == String; } bool isArray() const { return t == Array; } bool isObject() const { return t == Object; }
  bool toBool(bool df = false) const { return t == Bool ? b : df; } double toDouble(double df = 0) const { return t != Double ? df : in ? (double)i : d; } qint64 toInteger(qint64 df = 0) const { qint64 n; return t != Double ? df : in ? i : conv(d, n) ? n : df; } int toInt(int df = 0) const { qint64 n; if (t != Double || (!in && !conv(d, n))) return df; if (in) n = i; return n == (int)n ? (int)n : df; }
  QString toString() const { return t == String ? s : QString(); } QJsonArray toArray() const { return t == Array ? a : QJsonArray(); } QJsonObject toObject() const { return t == Object ? o : QJsonObject(); }
};
inline std::vector<QJsonValue> &QJsonArray::w() { p = p ? std::make_shared<std::vector<QJsonValue>>(*p) : std::make_shared<std::vector<QJsonValue>>(); return *p; } inline qsizetype QJsonArray::size() const { return p ? (qsizetype)p->size() : 0; } inline QJsonArray::const_iterator QJsonArray::begin() const { const_iterator r; r.v = p.get(); return r; } inline QJsonArray::const_iterator QJsonArray::end() const { const_iterator r; r.v = p.get(); r.k = (long)size(); return r; } inline void QJsonArray::append(const QJsonValue &x) { w().push_back(x); } inline QJsonValue QJsonArray::const_iterator::operator*() const { return v->at((size_t)k); }
inline std::vector<std::pair<QString, QJsonValue>> &QJsonObject::w() { typedef std::vector<std::pair<QString, QJsonValue>> T; p = p ? std::make_shared<T>(*p) : std::make_shared<T>(); return *p; } inline qsizetype QJsonObject::size() const { return p ? (qsizetype)p->size() : 0; } inline QJsonObject::const_iterator QJsonObject::begin() const { const_iterator r; r.v = p.get(); return r; } inline QJsonObject::const_iterator QJsonObject::end() const { const_iterator r; r.v = p.get(); r.k = (long)size(); return r; } inline QJsonObject::const_iterator QJsonObject::find(const QString &n) const { const_iterator r = begin(); while (r.k < (long)size() && !((*p)[(size_t)r.k].first == n)) ++r.k; return r; } inline void QJsonObject::insert(const QString &n, const QJsonValue &x) { auto &v = w(); for (auto &e : v) if (e.first == n) { e.second = x; return; } v.emplace_back(n, x); } inline QString QJsonObject::const_iterator::key() const { return v->at((size_t)k).first; } inline QJsonValue QJsonObject::const_iterator::value() const { return v->at((size_t)k).second; }
// ---- QVariant
struct QMetaType { enum Type { UnknownType = 0, Bool = 1, Int = 2, UInt = 3, LongLong = 4, ULongLong = 5, Double = 6, QVariantMap = 8, QVariantList = 9, QString = 10, Long = 32, Short = 33, Char = 34, ULong = 35, UShort = 36, UChar = 37, Float = 38, SChar = 40, Char16 = 56, Char32 = 57 }; };
class QVariant;
typedef QList<QVariant> QVariantList; typedef QMap<QString, QVariant> QVariantMap;
class QVariant {
  int t = 0; bool b = false; qint64 i = 0; double d = 0; QString s; std::shared_ptr<QVariantList> l; std::shared_ptr<QVariantMap> m;
public:
  QVariant() {} QVariant(bool x) : t(QMetaType::Bool), b(x) {} QVariant(int x) : t(QMetaType::Int), i(x) {} QVariant(unsigned x) : t(QMetaType::UInt), i(x) {} QVariant(qint64 x) : t(QMetaType::LongLong), i(x) {} QVariant(qulonglong x) : t(QMetaType::ULongLong), i((qint64)x) {} QVariant(double x) : t(QMetaType::Double), d(x) {} QVariant(float x) : t(QMetaType::Float), d(x) {} QVariant(const QString &x) : t(QMetaType::QString), s(x) {} inline QVariant(const QVariantList &x); inline QVariant(const QVariantMap &x);
  int typeId() const { return t; } bool isNull() const { return t == 0; } bool toBool() const { return t == QMetaType::Bool && b; } double toDouble() const { return t == QMetaType::Double || t == QMetaType::Float ? d : (double)i; } qlonglong toLongLong() const { return i; } int toInt() const { return (int)i; } QString toString() const { return s; } inline QVariantList toList() const; inline QVariantMap toMap() const;
};
inline QVariant::QVariant(const QVariantList &x) : t(QMetaType::QVariantList), l(std::make_shared<QVariantList>(x)) {} inline QVariant::QVariant(const QVariantMap &x) : t(QMetaType::QVariantMap), m(std::make_shared<QVariantMap>(x)) {} inline QVariantList QVariant::toList() const { return l ? *l : QVariantList(); } inline QVariantMap QVariant::toMap() const { return m ? *m : QVariantMap(); }

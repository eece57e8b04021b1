//@ irflags -I$V/harness/stubs/ptree -I$V/harness/stubs/json11 -I$V/harness/stubs/jsoncpp -I$V/harness/stubs/poco -I$V/harness/stubs/qt -I$V/harness/stubs/yaml
//@ natflags -I$V/harness/stubs/json11 -I/usr/include/jsoncpp -I/usr/include/x86_64-linux-gnu/qt6 -I/usr/include/x86_64-linux-gnu/qt6/QtCore -fPIC
//@ libs -ljsoncpp -lPocoJSON -lPocoFoundation -lQt6Core -lyaml-cpp
//@ stub the parsers of JsonCpp, Poco, Qt, yaml-cpp, property trees and json11 are replaced by one that accepts JSON exactly; the native replays use the real libraries, except json11, and have to agree
//@ bounds JsonCpp, Poco, Qt JSON, Qt variants, yaml-cpp, json11 and property trees: five documents with two symbolic letters and a symbolic digit, whole and without any number of characters at the end; paths that name nothing, and, except for Qt and yaml-cpp, directories and files that cannot be read
#include "gen.h"
#include <boost/property_tree/json_parser.hpp>
#include <json11.hpp>
#include "vsfile.h"
#include <json/json.h>
#include <Poco/JSON/Object.h>
#include <QJsonArray>
#include <QJsonObject>
#include <QJsonValue>
#include <QVariant>
#include <yaml-cpp/yaml.h>
#ifdef VS_NATIVE
#include <Poco/JSON/JSONException.h>
#include <Poco/JSON/Parser.h>
#include <QFile>
#include <QJsonDocument>
#endif
#include <valijson/adapters/json11_adapter.hpp>
#include <valijson/adapters/jsoncpp_adapter.hpp>
#include <valijson/adapters/poco_json_adapter.hpp>
#include <valijson/adapters/qtjson_adapter.hpp>
#include <valijson/adapters/qvariant_adapter.hpp>
#include <valijson/adapters/yaml_cpp_adapter.hpp>
#include "vstext.h"
using namespace valijson;
static Json::Value toJsonCpp(const J &j) { switch (j.k) { case J::Null: return Json::Value(); case J::Bool: return Json::Value(j.b); case J::Int: return Json::Value((Json::Value::Int64)j.i); case J::Dbl: return Json::Value(j.d); case J::Str: return Json::Value(j.s); case J::Arr: { Json::Value r(Json::arrayValue); for (auto &x : j.a) r.append(toJsonCpp(x)); return r; } default: { Json::Value r(Json::objectValue); for (auto &p : j.o) r[p.first] = toJsonCpp(p.second); return r; } } }
using Poco::Dynamic::Var;
static Var toPoco(const J &j) { switch (j.k) { case J::Null: return Var(); case J::Bool: return Var(j.b); case J::Int: return Var((int64_t)j.i); case J::Dbl: return Var(j.d); case J::Str: return Var(j.s); case J::Arr: { Poco::JSON::Array::Ptr r(new Poco::JSON::Array()); for (auto &x : j.a) r->add(toPoco(x)); return Var(r); } default: { Poco::JSON::Object::Ptr r(new Poco::JSON::Object()); for (auto &p : j.o) r->set(p.first, toPoco(p.second)); return Var(r); } } }
static QString qs(const string &s) { return QString::fromStdString(s); }
static QJsonValue toQJson(const J &j) { switch (j.k) { case J::Null: return QJsonValue(); case J::Bool: return QJsonValue(j.b); case J::Int: return QJsonValue((qint64)j.i); case J::Dbl: return QJsonValue(j.d); case J::Str: return QJsonValue(qs(j.s)); case J::Arr: { QJsonArray r; for (auto &x : j.a) r.append(toQJson(x)); return QJsonValue(r); } default: { QJsonObject r; for (auto &p : j.o) r.insert(qs(p.first), toQJson(p.second)); return QJsonValue(r); } } }
static QVariant toQVariant(const J &j) { switch (j.k) { case J::Null: return QVariant(); case J::Bool: return QVariant(j.b); case J::Int: return QVariant((qint64)j.i); case J::Dbl: return QVariant(j.d); case J::Str: return QVariant(qs(j.s)); case J::Arr: { QVariantList r; for (auto &x : j.a) r.append(toQVariant(x)); return QVariant(r); } default: { QVariantMap r; for (auto &p : j.o) r.insert(qs(p.first), toQVariant(p.second)); return QVariant(r); } } }
static YAML::Node toY(const J &j) { switch (j.k) { case J::Null: return YAML::Node(); case J::Bool: return YAML::Node(string(j.b ? "true" : "false")); case J::Int: return YAML::Node(std::to_string(j.i)); case J::Str: return YAML::Node(j.s); case J::Arr: { YAML::Node r(YAML::NodeType::Sequence); for (auto &x : j.a) r.push_back(toY(x)); return r; } case J::Obj: { YAML::Node r(YAML::NodeType::Map); for (auto &p : j.o) r.force_insert(p.first, toY(p.second)); return r; } default: return YAML::Node(string(j.d == 0.5 ? "0.5" : j.d == 0.1 ? "0.1" : j.d == 2.5 ? "2.5" : "0.25")); } }
using Json11 = json11::Json;
static Json11 toJ11(const J &j) { switch (j.k) { case J::Null: return Json11(); case J::Bool: return Json11(j.b); case J::Int: return (j.i >= INT32_MIN) & (j.i <= INT32_MAX) ? Json11((int)j.i) : Json11((double)j.i); case J::Dbl: return Json11(j.d); case J::Str: return Json11(j.s); case J::Arr: { Json11::array r; for (auto &x : j.a) r.push_back(toJ11(x)); return Json11(r); } default: { Json11::object r; for (auto &p : j.o) r[p.first] = toJ11(p.second); return Json11(r); } } }
using boost::property_tree::ptree;
static ptree toT(const J &j) { ptree t; switch (j.k) { case J::Null: t.data() = "null"; break; case J::Bool: t.data() = j.b ? "true" : "false"; break; case J::Int: t.data() = std::to_string(j.i); break; case J::Str: t.data() = j.s; break; case J::Dbl: t.data() = "?"; break; case J::Arr: for (auto &x : j.a) t.push_back({"", toT(x)}); break; case J::Obj: for (auto &p : j.o) t.push_back({p.first, toT(p.second)}); break; } return t; }
static bool vsParse(const string &s, J &r) { Txt t{s}; r = t.all(); return !t.bad; }
json11::Json json11::Json::parse(const string &s, string &err) { J j; if (!vsParse(s, j)) { err = "error"; return Json11(); } return toJ11(j); }
#ifndef VS_NATIVE // parsers
namespace boost { namespace property_tree { namespace json_parser { void read_json(const string &p, ptree &t) { if (F.kind || F.path != p) throw json_parser_error("cannot open file"); J j; if (!vsParse(F.data, j)) throw json_parser_error("error"); t = toT(j); } } } }
namespace Json { struct CharReader { bool parse(const char *b, const char *e, Value *v, string *err) { J j; if (!vsParse(string(b, e), j)) { if (err) *err = "error"; return false; } *v = toJsonCpp(j); return true; } }; struct CharReaderBuilder { CharReader *newCharReader() const { return new CharReader; } }; }
namespace Poco { namespace JSON { class JSONException : public Exception { public: using Exception::Exception; }; struct Parser { Dynamic::Var parse(const string &s) { J j; if (!vsParse(s, j)) throw JSONException("error"); return toPoco(j); } }; } }
struct QByteArray { string s; bool isEmpty() const { return s.empty(); } };
struct QFile { enum Mode { ReadOnly = 1 }; string n; bool o = false; explicit QFile(const QString &p) : n(p.toStdString()) {} ~QFile() { if (o) ++F.closed; } bool open(int) { if (F.kind || F.path != n) return false; ++F.opened; return o = true; } QByteArray readAll() { return QByteArray{o ? F.data : string()}; } bool exists() const { return F.path == n && F.kind != 1; } void close() { if (o) ++F.closed; o = false; } };
struct QJsonParseError { enum ParseError { NoError, Some }; ParseError error = NoError; int offset = -1; QString errorString() const { return QString("error"); } };
struct QJsonDocument { J j; bool null = true; static QJsonDocument fromJson(const QByteArray &b, QJsonParseError *e = nullptr) { QJsonDocument d; J r; if (vsParse(b.s, r) && (r.k == J::Arr || r.k == J::Obj)) { d.j = r; d.null = false; } else if (e) e->error = QJsonParseError::Some; return d; } bool isNull() const { return null; } bool isArray() const { return !null && j.k == J::Arr; } bool isObject() const { return !null && j.k == J::Obj; } bool isEmpty() const { return null || (j.a.empty() && j.o.empty()); } QJsonArray array() const { return toQJson(j).toArray(); } QJsonObject object() const { return toQJson(j).toObject(); } QVariant toVariant() const { return toQVariant(j); } };
namespace YAML { struct Exception : std::runtime_error { using std::runtime_error::runtime_error; }; struct ParserException : Exception { using Exception::Exception; }; struct BadFile : Exception { using Exception::Exception; }; static Node LoadFile(const string &p) { if (F.kind == 1 || F.path != p) throw BadFile("bad file"); J j; if (!vsParse(F.data, j)) throw ParserException("error"); return toY(j); } }
#define cout vs_cerr
#endif
#include <valijson/utils/json11_utils.hpp>
#include <valijson/utils/jsoncpp_utils.hpp>
#include <valijson/utils/poco_json_utils.hpp>
#include <valijson/utils/property_tree_utils.hpp>
#include <valijson/utils/qtjson_utils.hpp>
#include <valijson/utils/qvariant_utils.hpp>
#include <valijson/utils/yaml_cpp_utils.hpp>
#undef cout
#undef ifstream
#undef istreambuf_iterator
#undef cerr
#undef ostringstream
#undef stringstream
template <class A, class D> static int load1(const string &path, const J &w, D &d) { bool ok; try { ok = valijson::utils::loadDocument(path, d); } catch (...) { vs_observe("threw", 1); return 2; } return ok ? same(A(d), w) ? 1 : 3 : 0; }
static bool sameY(const adapters::YamlCppAdapter &a, const J &j) { if (j.k == J::Arr) { if (!a.isArray()) return false; size_t i = 0; for (const auto e : a.asArray()) { if (i >= j.a.size() || !sameY(e, j.a[i])) return false; ++i; } return i == j.a.size(); } if (j.k == J::Obj) { if (!a.isObject()) return false; size_t n = 0; for (const auto m : a.asObject()) { const J *q = j.get(m.first); if (!q || !sameY(m.second, *q)) return false; ++n; } return n == j.o.size(); } string s; if (j.k == J::Null) return a.isNull() || (a.getString(s) && s == "null"); return a.getString(s) && (j.k == J::Str ? s == j.s : j.k == J::Int ? s == std::to_string(j.i) : true); }
static int load(uint64_t lib, const string &path, const J &w, bool before) { J old = P("{'a':[1,2],'old':'text'}"); switch (lib) { case 0: { Json::Value d; if (before) d = toJsonCpp(old); return load1<adapters::JsonCppAdapter>(path, w, d); } case 1: { Var d; if (before) d = toPoco(old); return load1<adapters::PocoJsonAdapter>(path, w, d); } case 2: { QJsonValue d; if (before) d = toQJson(old); return load1<adapters::QtJsonAdapter>(path, w, d); } case 3: { QVariant d; if (before) d = toQVariant(old); return load1<adapters::QtVariantAdapter>(path, w, d); } case 5: { json11::Json d; if (before) d = toJ11(old); return load1<adapters::Json11Adapter>(path, w, d); } case 6: { ptree d; if (before) d = toT(old); bool ok; try { ok = valijson::utils::loadDocument(path, d); } catch (...) { vs_observe("threw", 1); return 2; } return ok ? d == toT(w) ? 1 : 3 : 0; } default: { YAML::Node d; bool ok; try { ok = valijson::utils::loadDocument(path, d); } catch (...) { vs_observe("threw", 1); return 2; } return ok ? sameY(adapters::YamlCppAdapter(d), w) ? 1 : 3 : 0; } } }
static const char *T[] = {"{\"a\":[1,-2,{\"?\":\"b\"}],\"c\":\"?\"}", "[true,false,null,\"?/\",#]", "{\"type\" :\"object\",\n\"properties\":{\"k?\":{\"maximum\":#}} }", "[\"x\",[\"y?\"],{}]", "[#1,#2]"};
//@ entry models shards=35 reach=loaded,rejected cost=3
VS_ENTRY(models) {
  vs_fmt_exact(1); uint64_t lib = vs_shard_choice("lib", 7), k = vs_shard_choice("text", 5), before = vs_choice("before", 2); string s = T[k]; char l = (char)vs_sym("letter", 8); vs_assume((l >= 'd') & (l <= 'z')); char g = (char)('0' + vs_sym("digit", 8) % 10); vs_assume(g > '0'); for (auto &c : s) c = c == '?' ? l : c == '#' ? g : c; uint64_t cutn = vs_choice("cut", 2) ? 1 + vs_choice("n", s.size() - 1) : 0; if (lib == 4 && before) return; s = s.substr(0, s.size() - cutn);
  Txt t{s}; J w = t.all(); vs_assert(t.bad == !!cutn || t.big, "oracle"); if (t.big) return; string p = place(0, s); int r = load(lib, p, w, before); unplace(); vs_observe("r", (uint64_t)r); vs_reach(t.bad ? "rejected" : "loaded"); vs_assert(r != 2, "exception"); if (t.bad) vs_assert(r == 0, "malformed file loaded"); else { vs_assert(r != 0, "well-formed file rejected"); vs_assert(r == 1, "another document"); } }
//@ entry modelsAbsent shards=7 reach=any
VS_ENTRY(modelsAbsent) { uint64_t lib = vs_shard_choice("lib", 7), k = lib < 2 || lib > 4 ? vs_choice("kind", 3) : 0, before = vs_choice("before", 2); string p = place((int)k + 1, "{}"); int r = load(lib, p, jo(), before); unplace(); vs_reach("any"); vs_observe("r", (uint64_t)r); vs_assert(r != 2, "exception"); vs_assert(r == 0, "loaded although there is no file"); }

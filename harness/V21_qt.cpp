//@ irflags -I$V/harness/stubs/qt
//@ natflags -I/usr/include/x86_64-linux-gnu/qt6 -I/usr/include/x86_64-linux-gnu/qt6/QtCore -fPIC
//@ libs -lQt6Core
//@ stub Qt is modelled by stubs/qt in the symbolic run (strings as UTF-8, ASCII only); the native replays use the real library and have to agree
#include "stublib.h"
#include <valijson/adapters/qtjson_adapter.hpp>
#include <valijson/adapters/qvariant_adapter.hpp>
static QString qs(const string &s) { return QString::fromStdString(s); }
static QJsonValue toQJson(const J &j) { switch (j.k) { case J::Null: return QJsonValue(); case J::Bool: return QJsonValue(j.b); case J::Int: return QJsonValue((qint64)j.i); case J::Dbl: return QJsonValue(j.d); case J::Str: return QJsonValue(qs(j.s)); case J::Arr: { QJsonArray r; for (auto &x : j.a) r.append(toQJson(x)); return QJsonValue(r); } default: { QJsonObject r; for (auto &p : j.o) r.insert(qs(p.first), toQJson(p.second)); return QJsonValue(r); } } }
static QVariant toQVariant(const J &j) { switch (j.k) { case J::Null: return QVariant(); case J::Bool: return QVariant(j.b); case J::Int: return QVariant((qint64)j.i); case J::Dbl: return QVariant(j.d); case J::Str: return QVariant(qs(j.s)); case J::Arr: { QVariantList r; for (auto &x : j.a) r.append(toQVariant(x)); return QVariant(r); } default: { QVariantMap r; for (auto &p : j.o) r.insert(qs(p.first), toQVariant(p.second)); return QVariant(r); } } }
struct QDoc { QJsonValue d; explicit QDoc(const J &j) : d(toQJson(j)) {} adapters::QtJsonAdapter ad() const { return adapters::QtJsonAdapter(d); } void clobber() { d = QJsonValue(true); } };
struct QVDoc { QVariant d; explicit QVDoc(const J &j) : d(toQVariant(j)) {} adapters::QtVariantAdapter ad() const { return adapters::QtVariantAdapter(d); } void clobber() { d = QVariant(true); } };
//@ entry qtScalars shards=7 reach=num,other cost=2
VS_ENTRY(qtScalars) { slScalars<QDoc>(true); }
//@ entry qtContainers shards=6 reach=found,absent cost=4
VS_ENTRY(qtContainers) { slContainers<QDoc>(0); }
//@ entry qtEqual shards=8 reach=eq,ne cost=5
VS_ENTRY(qtEqual) { slEqual<QDoc>(); }
//@ entry qtVerdict shards=28 reach=in,out cost=6
VS_ENTRY(qtVerdict) { slVerdict<QDoc>(false, nullptr); }
//@ entry qvScalars shards=7 reach=num,other cost=2
VS_ENTRY(qvScalars) { slScalars<QVDoc>(false); }
//@ entry qvContainers shards=6 reach=found,absent cost=4
VS_ENTRY(qvContainers) { slContainers<QVDoc>(0); }
//@ entry qvEqual shards=8 reach=eq,ne cost=5
VS_ENTRY(qvEqual) { slEqual<QVDoc>(); }
//@ entry qvVerdict shards=28 reach=in,out cost=6
VS_ENTRY(qvVerdict) { slVerdict<QVDoc>(false, nullptr); }

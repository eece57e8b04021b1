//@ irflags -I$V/harness/stubs/jsoncpp
//@ natflags -I/usr/include/jsoncpp
//@ libs -ljsoncpp
//@ stub JsonCpp is modelled by stubs/jsoncpp in the symbolic run; the native replays use the real library and have to agree
#include "stublib.h"
#include <valijson/adapters/jsoncpp_adapter.hpp>
static Json::Value toJsonCpp(const J &j) { switch (j.k) { case J::Null: return Json::Value(); case J::Bool: return Json::Value(j.b); case J::Int: return Json::Value((Json::Value::Int64)j.i); case J::Dbl: return Json::Value(j.d); case J::Str: return Json::Value(j.s); case J::Arr: { Json::Value r(Json::arrayValue); for (auto &x : j.a) r.append(toJsonCpp(x)); return r; } default: { Json::Value r(Json::objectValue); for (auto &p : j.o) r[p.first] = toJsonCpp(p.second); return r; } } }
struct JDoc { Json::Value d; explicit JDoc(const J &j) : d(toJsonCpp(j)) {} adapters::JsonCppAdapter ad() const { return adapters::JsonCppAdapter(d); } void clobber() { if (d.isArray()) d.append(Json::Value(77)); else if (d.isObject()) d["zz"] = Json::Value(77); } };
//@ entry jsoncppScalars shards=7 reach=num,other cost=2
VS_ENTRY(jsoncppScalars) { slScalars<JDoc>(true); }
//@ entry jsoncppContainers shards=6 reach=found,absent cost=4
VS_ENTRY(jsoncppContainers) { slContainers<JDoc>(0); }
//@ entry jsoncppEqual shards=8 reach=eq,ne cost=5
VS_ENTRY(jsoncppEqual) { slEqual<JDoc>(); }
//@ entry jsoncppVerdict shards=28 reach=in,out cost=6
VS_ENTRY(jsoncppVerdict) { slVerdict<JDoc>(false, nullptr); }

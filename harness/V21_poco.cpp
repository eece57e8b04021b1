//@ irflags -I$V/harness/stubs/poco
//@ libs -lPocoJSON -lPocoFoundation
//@ stub Poco is modelled by stubs/poco in the symbolic run; the native replays use the real library and have to agree
#include "stublib.h"
#include <valijson/adapters/poco_json_adapter.hpp>
using Poco::Dynamic::Var;
static Var toPoco(const J &j) { switch (j.k) { case J::Null: return Var(); case J::Bool: return Var(j.b); case J::Int: return Var((int64_t)j.i); case J::Dbl: return Var(j.d); case J::Str: return Var(j.s); case J::Arr: { Poco::JSON::Array::Ptr r(new Poco::JSON::Array()); for (auto &x : j.a) r->add(toPoco(x)); return Var(r); } default: { Poco::JSON::Object::Ptr r(new Poco::JSON::Object()); for (auto &p : j.o) r->set(p.first, toPoco(p.second)); return Var(r); } } }
struct PocoDoc { Var d; explicit PocoDoc(const J &j) : d(toPoco(j)) {} adapters::PocoJsonAdapter ad() const { return adapters::PocoJsonAdapter(d); } static void clob(const Var &v) { if (v.type() == typeid(Poco::JSON::Array::Ptr)) { auto p = v.extract<Poco::JSON::Array::Ptr>(); for (auto &x : *p) clob(x); p->add(Var(77)); } else if (v.type() == typeid(Poco::JSON::Object::Ptr)) { auto p = v.extract<Poco::JSON::Object::Ptr>(); for (auto &x : *p) clob(x.second); p->set("zz", Var(77)); } } void clobber() { clob(d); } };
//@ entry pocoScalars shards=7 reach=num,other cost=2
VS_ENTRY(pocoScalars) { slScalars<PocoDoc>(false); }
//@ entry pocoContainers shards=6 reach=found,absent cost=4
VS_ENTRY(pocoContainers) { slContainers<PocoDoc>(0); }
//@ entry pocoEqual shards=8 reach=eq,ne cost=5
VS_ENTRY(pocoEqual) { slEqual<PocoDoc>(); }
//@ entry pocoVerdict shards=28 reach=in,out cost=6
VS_ENTRY(pocoVerdict) { slVerdict<PocoDoc>(false, nullptr); }

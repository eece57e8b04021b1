//@ irflags -I$V/harness/stubs/json11
//@ natflags -I$V/harness/stubs/json11
//@ stub json11 is not installed here: stubs/json11 models it in the symbolic run and in the native replays
#include "stublib.h"
#include <valijson/adapters/json11_adapter.hpp>
using json11::Json;
static Json toJ11(const J &j) { switch (j.k) { case J::Null: return Json(); case J::Bool: return Json(j.b); case J::Int: return (j.i >= INT32_MIN) & (j.i <= INT32_MAX) ? Json((int)j.i) : Json((double)j.i); case J::Dbl: return Json(j.d); case J::Str: return Json(j.s); case J::Arr: { Json::array r; for (auto &x : j.a) r.push_back(toJ11(x)); return Json(r); } default: { Json::object r; for (auto &p : j.o) r[p.first] = toJ11(p.second); return Json(r); } } }
struct J11Doc { Json d; explicit J11Doc(const J &j) : d(toJ11(j)) {} adapters::Json11Adapter ad() const { return adapters::Json11Adapter(d); } void clobber() { d = Json(77); } };
//@ entry json11Scalars shards=7 reach=num,other cost=2
VS_ENTRY(json11Scalars) { slScalars<J11Doc>(true, 9007199254740992); }
//@ entry json11Containers shards=6 reach=found,absent cost=4
VS_ENTRY(json11Containers) { slContainers<J11Doc>(-1); }
//@ entry json11Equal shards=8 reach=eq,ne cost=5
VS_ENTRY(json11Equal) { slEqual<J11Doc>(2147483647); }
//@ entry json11Verdict shards=28 reach=in,out cost=6
VS_ENTRY(json11Verdict) { slVerdict<J11Doc>(false, nullptr); }

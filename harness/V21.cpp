#include "libs.h"
using std::string; using namespace valijson;
//@ bounds four libraries: RapidJSON, nlohmann/json, PicoJSON, Boost.JSON; scalars: every int64, every finite double, every byte string of up to 3 bytes, booleans, null
//@ bounds containers: arrays of 0-4 elements, objects of 0-3 members with names of up to 2 arbitrary bytes (distinct), looked-up name of up to 2 arbitrary bytes
//@ bounds equal: 16 pairs of libraries, eight shapes up to depth 3 and pairs of different shapes, symbolic leaves of every kind, plain and frozen (and cloned) values
//@ bounds verdict: the 83 schema templates of gen.h with their instances, schema in one library and instance in another (every pair in thorough, about half of the pairs in quick), every draft
//@ bounds unsigned: every value up to 2^63-1 stored as uint64, uint32, int32 or int64
//@ outside unsigned values above 2^63-1 (the adapters report them through int64_t)
//@ bounds JsonCpp, Poco, Qt JSON and QVariant: the same over their adapters, with the libraries, which are present only as shared objects, replaced by models in the symbolic run and used themselves in the native replays
//@ outside documents with duplicate names; yaml-cpp and property trees, whose types are weak (V23); json11, which is not installed
//@ entry scalars shards=28 reach=num,other cost=3
VS_ENTRY(scalars) { // every accessor of one value, against the value it was made from
  uint64_t lib = vs_shard_choice("lib", NLIB), k = vs_shard_choice("kind", 7); J x; switch (k) { case 0: break; case 1: x = jb(vs_sym("b", 1)); break; case 2: x = ji((int64_t)vs_sym("i", 64)); break; case 3: x = jd(vs_double("d")); vs_assume(isFin(x.d)); break; case 4: x = js(vs_bytes("s", vs_choice("len", 4))); break; case 5: x = vs_choice("n", 2) ? ja({ji(1), ja()}) : ja(); break; default: x = vs_choice("n", 2) ? P("{'a':1,'b':{}}") : jo(); }
  vs_reach(x.num() ? "num" : "other");
  with(lib, x, [&](const auto &a) {
    vs_assert(a.isNull() == (x.k == J::Null) && a.isBool() == (x.k == J::Bool) && a.isInteger() == (x.k == J::Int) && a.isDouble() == (x.k == J::Dbl) && a.isNumber() == x.num() && a.isString() == (x.k == J::Str) && a.isArray() == (x.k == J::Arr) && a.isObject() == (x.k == J::Obj), "type");
    bool b = !x.b; vs_assert(a.getBool(b) == (x.k == J::Bool), "getBool"); if (x.k == J::Bool) vs_assert(b == x.b && a.getBool() == x.b && a.asBool() == x.b, "boolean");
    int64_t i = 0; vs_assert(a.getInteger(i) == (x.k == J::Int), "getInteger"); if (x.k == J::Int) vs_assert(i == x.i && a.getInteger() == x.i && a.asInteger() == x.i, "integer"); double d = 0; bool gd = a.getDouble(d); if (x.k != J::Int) vs_assert(gd == (x.k == J::Dbl), "getDouble"); if (x.k == J::Dbl) vs_assert(d == x.d && a.getDouble() == x.d, "double");
    vs_assert(a.getNumber(d) == x.num(), "getNumber"); if (x.num()) vs_assert(d == x.dbl() && a.getNumber() == x.dbl() && a.asDouble() == x.dbl(), "number");
    string s = "?"; vs_assert(a.getString(s) == (x.k == J::Str), "getString"); if (x.k == J::Str) vs_assert(s == x.s && a.getString() == x.s && a.asString() == x.s, "string"); size_t n = 99; vs_assert(a.getArraySize(n) == (x.k == J::Arr), "getArraySize"); if (x.k == J::Arr) vs_assert(n == x.a.size() && a.getArraySize() == n, "array size"); vs_assert(a.getObjectSize(n) == (x.k == J::Obj), "getObjectSize"); if (x.k == J::Obj) vs_assert(n == x.o.size() && a.getObjectSize() == n, "object size");
    vs_assert(a.hasStrictTypes(), "strict types"); const std::decay_t<decltype(a)> e; vs_assert(e.isObject() && e.getObjectSize() == 0 && !e.isNull() && e.getObject().size() == 0, "default adapter");
    int thrown = 0; try { a.getArray(); } catch (const std::exception &) { thrown |= 1; } try { a.getObject(); } catch (const std::exception &) { thrown |= 2; } try { a.getString(); } catch (const std::exception &) { thrown |= 4; } try { a.getBool(); } catch (const std::exception &) { thrown |= 8; } try { a.getNumber(); } catch (const std::exception &) { thrown |= 16; } vs_assert(thrown == ((x.k != J::Arr) | (x.k != J::Obj) * 2 | (x.k != J::Str) * 4 | (x.k != J::Bool) * 8 | !x.num() * 16), "access to a value of another type"); });
}
//@ entry containers shards=24 reach=found,absent cost=6
VS_ENTRY(containers) { // iteration and lookup; names are strings of up to 3 arbitrary bytes
  uint64_t lib = vs_shard_choice("lib", NLIB), n = vs_shard_choice("n", 6); if (n < 3) { // arrays
    JV v; for (uint64_t i = 0; i < n * 2; ++i) v.push_back(ji((int64_t)vs_sym(("v" + std::to_string(i)).c_str(), 64))); vs_reach("found"); vs_reach("absent");
    with(lib, ja(v), [&](const auto &a) { auto arr = a.asArray(); vs_assert(arr.size() == v.size(), "size of an array"); size_t k = 0; for (auto e : arr) { vs_assert(k < v.size() && e.isInteger() && e.getInteger() == v[k].i, "element"); ++k; } vs_assert(k == v.size(), "elements iterated over"); auto it = arr.begin(); k = 0; while (it != arr.end()) { auto old = it++; vs_assert((*old).getInteger() == v[k].i && old->getInteger() == v[k].i && !(old == it), "iterator"); ++k; } if (k) { --it; vs_assert((*it).getInteger() == v[k - 1].i, "iterator moved back"); } auto at = arr.begin(); at.advance((std::ptrdiff_t)v.size()); vs_assert(at == arr.end(), "advance");
      size_t m = 0; bool all = a.applyToArray([&](const Adapter &e) { vs_assert(e.getInteger() == v[m].i, "element applied to"); return ++m != 2; }); vs_assert(m == (v.size() < 2 ? v.size() : 2) && all == (v.size() < 2), "applyToArray"); }); return; }
  uint64_t c = n - 3 + (n == 5); JO o; for (uint64_t i = 0; i < c; ++i) { string nm = vs_bytes(("m" + std::to_string(i)).c_str(), i ? vs_choice("len", 3) : 2); for (auto &p : o) vs_assume(p.first != nm); o.push_back({nm, ji((int64_t)vs_sym(("v" + std::to_string(i)).c_str(), 64))}); }
  string q = vs_bytes("q", vs_choice("qlen", 3)); const J *want = jo(o).get(q); int64_t wv = 0; bool has = want != nullptr; for (auto &p : o) if (p.first == q) wv = p.second.i; vs_reach(has ? "found" : "absent");
  with(lib, jo(o), [&](const auto &a) { auto obj = a.asObject(); vs_assert(obj.size() == o.size(), "size of an object"); auto it = obj.find(q); vs_assert((it != obj.end()) == has, "lookup"); if (it != obj.end()) { vs_assert((*it).first == q && it->second.getInteger() == wv, "member looked up"); }
    int64_t sum = 0, ws = 0; size_t k = 0; for (auto m : obj) { ++k; sum = (int64_t)((uint64_t)sum + (uint64_t)m.second.getInteger()); bool known = false; for (auto &p : o) known |= (p.first == m.first) & (p.second.i == m.second.getInteger()); vs_assert(known, "member iterated over"); } for (auto &p : o) ws = (int64_t)((uint64_t)ws + (uint64_t)p.second.i); vs_assert(k == o.size() && sum == ws, "members iterated over"); auto i2 = obj.begin(); for (k = 0; i2 != obj.end(); ++k) { auto old = i2++; vs_assert(!(old == i2) && old->second.isInteger(), "iterator"); }
    size_t m = 0; bool all = a.applyToObject([&](const string &nm, const Adapter &e) { bool known = false; for (auto &p : o) known |= (p.first == nm) & (p.second.i == e.getInteger()); vs_assert(known, "member applied to"); return ++m != 2; }); vs_assert(m == (o.size() < 2 ? o.size() : 2) && all == (o.size() < 2), "applyToObject"); });
}
//@ entry unsigned_ shards=8 reach=small,large cost=2
VS_ENTRY(unsigned_) { // a number stored as an unsigned or a 32-bit value is the integer it denotes
  uint64_t r = vs_shard_choice("representation", 8), v = vs_sym("v", 63); if (r == 1 || r == 5) v &= 0xffffffffu; if (r == 2 || r == 6) v &= 0x7fffffffu; J x = ji((int64_t)v); vs_reach(v > 0x7fffffffu ? "large" : "small"); if (r == 2 || r == 6) vs_reach("large"); bool neg = r == 2 && vs_choice("neg", 2); if (neg) x.i = -x.i;
  auto f = [&](const auto &a) { int64_t i = 0; double d = 0; vs_assert(a.isInteger() && a.isNumber() && !a.isDouble() && !a.isBool() && a.getInteger(i) && i == x.i && a.asInteger() == x.i && a.getNumber(d) && d == (double)x.i, "unsigned number"); Doc o(x); vs_assert(a.equalTo(o.ad(), true) && o.ad().equalTo(a, true), "equal to the signed number"); Schema sc; constraints::MinimumConstraint c; c.setMinimum((double)1); sc.addConstraint(c); Validator w; vs_assert(w.validate(sc, a, nullptr) == (x.i >= 1), "minimum"); };
  if (r < 4) { rapidjson::Value d; if (r == 0) d.SetUint64(v); else if (r == 1) d.SetUint((unsigned)v); else if (r == 2) d.SetInt((int)x.i); else d.SetInt64((int64_t)v); f(RA(d)); } else if (r < 6) { nlohmann::json d(v); if (r == 5) d = nlohmann::json((unsigned)v); f(NA(d)); } else { boost::json::value d(v); if (r == 6) d = boost::json::value((int)v); f(BA(d)); }
}
//@ entry equal shards=64 reach=eq,ne cost=9
VS_ENTRY(equal) { // values of two libraries, and frozen values, compare like values of one
  static const char *T[] = {"$0", "[$0,$1]", "{'a':$0,'b':$1}", "{'a':[$0,{'c':$1}]}", "[[$0],{},[]]", "{'':null,'x':[true,$0]}", "$1", "[{'k':$0},{'k':$1}]"};
  uint64_t la = vs_shard_choice("a", NLIB), lb = vs_shard_choice("b", NLIB), t = vs_shard_choice("shape", 8), k = vs_choice("kind", 7); bool frozen = vs_choice("frozen", 2); uint64_t t2 = t; if (k == 6) { t2 = (t + 1 + vs_choice("other", 7)) % 8; k = 0; }
  auto leaf = [&](const char *n, uint64_t kind) -> J { string i = string(n); switch (kind) { case 0: return ji((int64_t)vs_sym((i + "i").c_str(), 64)); case 1: { J d = jd(vs_double((i + "d").c_str())); vs_assume(isFin(d.d)); return d; } case 2: return js(vs_bytes((i + "s").c_str(), 2)); case 3: return jb(vs_sym((i + "b").c_str(), 1)); case 4: return jn(); default: return js(vs_bytes((i + "t").c_str(), vs_choice("tl", 3))); } };
  J a0 = leaf("p", k), a1 = leaf("q", (k + 2) % 6), b0 = leaf("r", k == 0 && vs_choice("mix", 2) ? 1 : k), b1 = leaf("s", (k + 2) % 6); J x = P(T[t], {a0, a1}), y = P(T[t2], {b0, b1}); if (vs_choice("swap", 2) && y.k == J::Obj && y.o.size() > 1) std::swap(y.o[0], y.o[1]);
  int w = eq(x, y); vs_assume(w != 2); vs_reach(w ? "eq" : "ne");
  with(la, x, [&](const auto &a) { with(lb, y, [&](const auto &b) { bool r; if (frozen) { std::unique_ptr<FrozenValue> f(a.freeze()), g(f->clone()); f.reset(); r = g->equalTo(b, true); } else r = a.equalTo(b, true); vs_observe("equal", r); vs_assert(r == (w == 1), "equality across libraries"); }); });
}
//@ entry verdict shards=83 reach=in,out cost=9
VS_ENTRY(verdict) { // schema in one library, instance in another
  uint64_t t = vs_shard_choice("tpl", NTPL), ls = vs_choice("schemaLib", NLIB), li = vs_choice("instLib", NLIB); if (!ls && !li) return;
#ifndef VS_THOROUGH
  if ((ls + li + t) % 3 && ls != li) return; if (strncmp(TPL[t].s, "{'format'", 9) == 0 && ls != li) return;
#endif
  uint64_t dr = vs_choice("draft", 3); Gen g; if (!tpl(g, t, dr)) return; bool fmt = strncmp(TPL[t].s, "{'format'", 9) == 0, w = fmt ? accepts(g.s, g.x, g.v) : want(g.s, g.x, g.v); vs_reach(w ? "in" : "out"); Schema sc; with(ls, g.s, [&](const auto &a) { SchemaParser p(g.v); p.populateSchema(a, sc); });
  with(li, g.x, [&](const auto &a) { Validator v; ValidationResults r; bool ok = v.validate(sc, a, nullptr), ok2 = v.validate(sc, a, &r); vs_observe("ok", ok); vs_assert(ok == w && ok2 == w, "verdict"); });
}

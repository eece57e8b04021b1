// Entries shared by the adapters whose library is modelled by a stub: DT is a document type made from a J, with ad().
#pragma once
#include "gen.h"
using std::string; using namespace valijson; using valijson::adapters::Adapter; using valijson::adapters::FrozenValue;
template <class DT> static void slScalars(bool doubleInts, int64_t vmax = 0) { // doubleInts: the library does not tell an integral double from an integer
  uint64_t k = vs_shard_choice("kind", 7); J x; switch (k) { case 0: break; case 1: x = jb(vs_sym("b", 1)); break; case 2: x = ji((int64_t)vs_sym("i", 64)); if (vmax) vs_assume((x.i <= vmax) & (x.i >= -vmax)); break; case 3: x = jd(vs_double("d")); vs_assume(isFin(x.d)); break; case 4: x = js(vs_bytes("s", vs_choice("len", 3))); break; case 5: x = vs_choice("n", 2) ? ja({ji(1), ja()}) : ja(); break; default: x = vs_choice("n", 2) ? P("{'a':1,'b':{}}") : jo(); }
  if (k == 4) for (char c : x.s) vs_assume(c >= 0); vs_reach(x.num() ? "num" : "other"); DT doc(x); const auto a = doc.ad();
  vs_assert(a.isNull() == (k == 0) && a.isBool() == (k == 1) && a.isNumber() == x.num() && a.isString() == (k == 4) && a.isArray() == (k == 5) && a.isObject() == (k == 6), "type"); bool intd = k == 3 && ((x.d < 9223372036854775808.0) & (x.d >= -9223372036854775808.0)) && integral(x.d), ii = a.isInteger();
  if (doubleInts) { if (k == 2 || intd) { if (!ii) vs_assert(a.isDouble(), "a number is an integer or a double"); } else vs_assert(!ii && a.isDouble() == (k == 3), "number"); } else vs_assert(ii == (k == 2) && a.isDouble() == (k == 3), "number"); vs_observe("int", ii); vs_observe("dbl", a.isDouble());
  bool b = !x.b; vs_assert(a.getBool(b) == (k == 1), "getBool"); if (k == 1) vs_assert(b == x.b && a.getBool() == x.b && a.asBool() == x.b, "boolean"); int64_t i = 0; bool gi = a.getInteger(i); if (!doubleInts || !intd) vs_assert(gi == ii, "getInteger"); if (ii) { vs_assert(gi, "integer"); if (k == 2) vs_assert(i == x.i && a.getInteger() == x.i && a.asInteger() == x.i, "integer"); else vs_assert((double)i == x.d, "integral number"); }
  double d = 0; vs_assert(a.getNumber(d) == x.num(), "getNumber"); if (x.num()) vs_assert(d == x.dbl() && a.asDouble() == x.dbl(), "number"); if (k == 2 && !doubleInts) vs_assert(a.isInteger(), "integer"); if (k == 3 && a.getDouble(d)) vs_assert(d == x.d, "double"); bool mi = a.maybeInteger(); vs_assert(mi == (k == 2 || intd) || k == 4, "maybeInteger"); if (mi && k != 4) vs_assert(k == 2 ? a.asInteger() == x.i : (double)a.asInteger() == x.d, "asInteger");
  string s = "?"; vs_assert(a.getString(s) == (k == 4), "getString"); if (k == 4) vs_assert(s == x.s && a.getString() == x.s && a.asString() == x.s, "string"); size_t n = 99; vs_assert(a.getArraySize(n) == (k == 5), "getArraySize"); if (k == 5) vs_assert(n == x.a.size() && a.asArray().size() == n, "array size"); vs_assert(a.getObjectSize(n) == (k == 6), "getObjectSize"); if (k == 6) vs_assert(n == x.o.size() && a.asObject().size() == n, "object size");
  if ((k == 5 && x.a.empty()) || (k == 6 && x.o.empty())) { vs_assert(a.asArray().size() == 0 && a.asObject().size() == 0, "empty container"); size_t c = 0; for (auto e : a.asArray()) { (void)e; ++c; } for (auto e : a.asObject()) { (void)e; ++c; } vs_assert(c == 0, "empty container"); }
  const std::decay_t<decltype(a)> e; vs_assert(e.isObject() && e.getObjectSize() == 0 && !e.isNull() && e.getObject().size() == 0, "default adapter");
  int th = 0; try { a.getArray(); } catch (const std::exception &) { th |= 1; } try { a.getObject(); } catch (const std::exception &) { th |= 2; } try { a.getString(); } catch (const std::exception &) { th |= 4; } try { a.getBool(); } catch (const std::exception &) { th |= 8; } try { a.getNumber(); } catch (const std::exception &) { th |= 16; } vs_assert(th == ((k != 5) | (k != 6) * 2 | (k != 4) * 4 | (k != 1) * 8 | !x.num() * 16), "access to a value of another type");
}
template <class DT> static void slContainers(int64_t vmax) {
  uint64_t n = vs_shard_choice("n", 6); auto num = [&](string nm) { if (vmax < 0) return (int64_t)vs_choice(nm.c_str(), 2) * 5 - 2; int64_t v = (int64_t)vs_sym(nm.c_str(), 64); if (vmax) vs_assume((v <= vmax) & (v >= -vmax)); return v; };
  if (n < 3) { JV v; for (uint64_t i = 0; i < n * 2; ++i) v.push_back(ji(num("v" + std::to_string(i)))); vs_reach("found"); vs_reach("absent"); DT doc(ja(v)); const auto a = doc.ad(); auto arr = a.asArray(); vs_assert(arr.size() == v.size(), "size of an array"); size_t k = 0; for (auto e : arr) { vs_assert(k < v.size() && e.isNumber() && e.asInteger() == v[k].i, "element"); ++k; } vs_assert(k == v.size(), "elements iterated over"); auto it = arr.begin(); k = 0; while (it != arr.end()) { auto old = it++; vs_assert((*old).asInteger() == v[k].i && old->asInteger() == v[k].i && !(old == it), "iterator"); ++k; } auto at = arr.begin(); at.advance((std::ptrdiff_t)v.size()); vs_assert(at == arr.end(), "advance"); if (v.size() > 1) { auto a1 = arr.begin(); a1.advance(1); vs_assert((*a1).asInteger() == v[1].i, "advance by one"); }
    size_t m = 0; bool all = a.applyToArray([&](const Adapter &e) { vs_assert(e.asInteger() == v[m].i, "element applied to"); return ++m != 2; }); vs_assert(m == (v.size() < 2 ? v.size() : 2) && all == (v.size() < 2), "applyToArray"); return; }
  uint64_t c = n - 3 + (n == 5); JO o; for (uint64_t i = 0; i < c; ++i) { string nm = vs_bytes(("m" + std::to_string(i)).c_str(), i ? vs_choice("len", 3) : 2); for (char ch : nm) vs_assume(ch > 0); for (auto &p : o) vs_assume(p.first != nm); o.push_back({nm, ji(num("v" + std::to_string(i)))}); } string q = vs_bytes("q", vs_choice("qlen", 3)); for (char ch : q) vs_assume(ch > 0);
  int64_t wv = 0; bool has = false; for (auto &p : o) if (p.first == q) { has = true; wv = p.second.i; } vs_reach(has ? "found" : "absent"); DT doc(jo(o)); const auto a = doc.ad(); auto obj = a.asObject(); vs_assert(obj.size() == o.size(), "size of an object"); auto it = obj.find(q); vs_observe("found", it != obj.end()); vs_assert((it != obj.end()) == has, "lookup"); if (it != obj.end()) vs_assert((*it).first == q && it->second.asInteger() == wv, "member looked up");
  int64_t sum = 0, ws = 0; size_t k = 0; for (auto m : obj) { ++k; int64_t v = m.second.asInteger(); sum = (int64_t)((uint64_t)sum + (uint64_t)v); bool known = false; for (auto &p : o) known |= (p.first == m.first) & (p.second.i == v); vs_assert(known, "member iterated over"); } for (auto &p : o) ws = (int64_t)((uint64_t)ws + (uint64_t)p.second.i); vs_assert(k == o.size() && sum == ws, "members iterated over"); auto i2 = obj.begin(); for (k = 0; i2 != obj.end(); ++k) { auto old = i2++; vs_assert(!(old == i2) && old->second.isNumber(), "iterator"); }
  size_t m = 0; bool all = a.applyToObject([&](const string &nm, const Adapter &e) { bool known = false; for (auto &p : o) known |= (p.first == nm) & (p.second.i == e.asInteger()); vs_assert(known, "member applied to"); return ++m != 2; }); vs_assert(m == (o.size() < 2 ? o.size() : 2) && all == (o.size() < 2), "applyToObject");
}
template <class DT> static void slEqual(int64_t vmax = 0) { // against a RapidJSON value, both ways round, and frozen
  static const char *T[] = {"$0", "[$0,$1]", "{'a':$0,'b':$1}", "{'a':[$0,{'c':$1}]}", "[[$0],{},[]]", "{'':null,'x':[true,$0]}", "$1", "[{'k':$0},{'k':$1}]"};
  uint64_t t = vs_shard_choice("shape", 8), k = vs_choice("kind", 7), how = vs_choice("how", 3); uint64_t t2 = t; if (k == 6) { t2 = (t + 1 + vs_choice("other", 7)) % 8; k = 0; }
  auto leaf = [&](const char *n, uint64_t kind) -> J { string i = string(n); switch (kind) { case 0: { J n = ji((int64_t)vs_sym((i + "i").c_str(), 64)); if (vmax) vs_assume((n.i <= vmax) & (n.i >= -vmax)); return n; } case 1: { J d = jd(vs_double((i + "d").c_str())); vs_assume(isFin(d.d)); return d; } case 2: { J s = js(vs_bytes((i + "s").c_str(), 2)); for (char c : s.s) vs_assume(c > 0); return s; } case 3: return jb(vs_sym((i + "b").c_str(), 1)); case 4: return jn(); default: { J s = js(vs_bytes((i + "t").c_str(), vs_choice("tl", 3))); for (char c : s.s) vs_assume(c > 0); return s; } } };
  J a0 = leaf("p", k), a1 = leaf("q", (k + 2) % 6), b0 = leaf("r", k == 0 && vs_choice("mix", 2) ? 1 : k), b1 = leaf("s", (k + 2) % 6); J x = P(T[t], {a0, a1}), y = P(T[t2], {b0, b1}); if (vs_choice("swap", 2) && y.k == J::Obj && y.o.size() > 1) std::swap(y.o[0], y.o[1]);
  int w = eq(x, y); vs_assume(w != 2); vs_reach(w ? "eq" : "ne"); Doc e(y); bool r; if (how == 2) { std::unique_ptr<FrozenValue> f, g; { DT d(x); f.reset(d.ad().freeze()); g.reset(f->clone()); f.reset(); d.clobber(); } r = g->equalTo(e.ad(), true); } else { DT d(x); r = how ? e.ad().equalTo(d.ad(), true) : d.ad().equalTo(e.ad(), true); } vs_observe("equal", r); vs_assert(r == (w == 1), "equality across libraries");
}
template <class DT> static void slVerdict(bool weak, bool (*skip)(const char *, const J &)) { // the schema in this library, the instance in RapidJSON, the other way round, or both in this one
  uint64_t t = vs_shard_choice("tpl", NTPL), how = vs_choice("how", 3);
#ifndef VS_THOROUGH
  if ((how + t) % 3) return;
#endif
  uint64_t dr = vs_choice("draft", 3); Gen g; if (!tpl(g, t, dr)) return; if (skip && skip(TPL[t].s, g.x)) return; bool fmt = strncmp(TPL[t].s, "{'format'", 9) == 0; Validator::TypeCheckingMode m = weak ? Validator::kWeakTypes : Validator::kStrongTypes; bool w = fmt || weak ? accepts(g.s, g.x, g.v, m) : want(g.s, g.x, g.v); vs_reach(w ? "in" : "out");
  Schema sc; DT sd(g.s), id(g.x); Doc rs(g.s), ri(g.x); { SchemaParser p(g.v); if (how == 1) p.populateSchema(rs.ad(), sc); else p.populateSchema(sd.ad(), sc); } Validator v(m); ValidationResults r; bool ok, ok2; if (how == 0) { ok = v.validate(sc, ri.ad(), nullptr); ok2 = v.validate(sc, ri.ad(), &r); } else { ok = v.validate(sc, id.ad(), nullptr); ok2 = v.validate(sc, id.ad(), &r); } vs_observe("ok", ok); vs_assert(ok == w && ok2 == w, "verdict");
}

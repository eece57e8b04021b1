// The JSON libraries whose code is available as headers: one document type per adapter, built from the tree J.
#pragma once
#include "gen.h"
#define PICOJSON_USE_INT64 1
#include <boost/json/src.hpp>
#include <boost/property_tree/ptree.hpp>
#include <valijson/adapters/boost_json_adapter.hpp>
#include <valijson/adapters/nlohmann_json_adapter.hpp>
#include <valijson/adapters/picojson_adapter.hpp>
#include <valijson/adapters/property_tree_adapter.hpp>
#include <valijson/adapters/std_string_adapter.hpp>
using valijson::adapters::Adapter; using valijson::adapters::FrozenValue;
typedef valijson::adapters::NlohmannJsonAdapter NA; typedef valijson::adapters::PicoJsonAdapter PA; typedef valijson::adapters::BoostJsonAdapter BA; typedef valijson::adapters::PropertyTreeAdapter TA;
inline nlohmann::json toNlohmann(const J &j) { using N = nlohmann::json; switch (j.k) { case J::Null: return N(nullptr); case J::Bool: return N(j.b); case J::Int: return N(j.i); case J::Dbl: return N(j.d); case J::Str: return N(j.s); case J::Arr: { N r = N::array(); for (auto &x : j.a) r.push_back(toNlohmann(x)); return r; } default: { N r = N::object(); for (auto &p : j.o) r[p.first] = toNlohmann(p.second); return r; } } }
inline picojson::value toPico(const J &j) { using V = picojson::value; switch (j.k) { case J::Null: return V(); case J::Bool: return V(j.b); case J::Int: return V(j.i); case J::Dbl: return V(j.d); case J::Str: return V(j.s); case J::Arr: { picojson::array r; for (auto &x : j.a) r.push_back(toPico(x)); return V(r); } default: { picojson::object r; for (auto &p : j.o) r[p.first] = toPico(p.second); return V(r); } } }
inline boost::json::value toBoost(const J &j) { using V = boost::json::value; switch (j.k) { case J::Null: return V(nullptr); case J::Bool: return V(j.b); case J::Int: return V(j.i); case J::Dbl: return V(j.d); case J::Str: return V(boost::json::string_view(j.s.data(), j.s.size())); case J::Arr: { boost::json::array r; for (auto &x : j.a) r.push_back(toBoost(x)); return V(r); } default: { boost::json::object r; for (auto &p : j.o) r[boost::json::string_view(p.first.data(), p.first.size())] = toBoost(p.second); return V(r); } } }
struct NDoc { nlohmann::json d; explicit NDoc(const J &j) : d(toNlohmann(j)) {} NA ad() const { return NA(d); } };
struct PDoc { picojson::value d; explicit PDoc(const J &j) : d(toPico(j)) {} PA ad() const { return PA(d); } };
struct BDoc { boost::json::value d; explicit BDoc(const J &j) : d(toBoost(j)) {} BA ad() const { return BA(d); } };
enum { NLIB = 4 };
template <class F> inline void with(uint64_t k, const J &j, F f) { switch (k) { case 0: { Doc d(j); f(d.ad()); break; } case 1: { NDoc d(j); f(d.ad()); break; } case 2: { PDoc d(j); f(d.ad()); break; } default: { BDoc d(j); f(d.ad()); } } }

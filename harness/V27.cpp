#include "gen.h"
using std::string; using namespace valijson;
//@ bounds schemas: every schema template (all keywords of Draft 3, 4 and 7) bare and in 20 contexts, three symbolic 64-bit parameters, read back from the parsed schema, from a copy of its constraints in a second schema and after a move of the schema
//@ bounds annotations: titles, descriptions and identifiers of up to 3 symbolic bytes each, present or absent, at the root and below properties, items and allOf, with and without an identifier at the root
//@ bounds constraints made by hand: every setter with symbolic 64-bit parameters and strings of up to 3 bytes, copied once and twice, with the default and with custom memory functions; visits that stop at a symbolic position
//@ outside titles, descriptions and identifiers that are not strings but convert to one; an empty object read as an empty list under dependencies and extends (the same constraint); the order of keywords within one schema; the order of names in properties, patternProperties, required and dependencies
template<typename S> static string st(const S &s) { return string(s.data(), s.size()); }
struct Reader : constraints::ConstraintVisitor { // compares the constraints of one subschema with the schema they came from
  const J &s, &root; SchemaParser::Version v; int depth; std::vector<string> left; bool good = true; const char *why = "";
  Reader(const J &s, const J &root, SchemaParser::Version v, int d) : s(s), root(root), v(v), depth(d) {}
  bool no(const char *w) { if (good) why = w; good = false; return true; }
  bool is(bool b, const char *w) { return b ? true : no(w); }
  const J *take(const char *k) { for (size_t i = 0; i < left.size(); ++i) if (left[i] == k) { left.erase(left.begin() + i); return s.get(k); } no("a constraint that is not in the schema"); return nullptr; }
  bool sub(const Subschema *p, const J &j) { const char *w = same(p, j, root, v, depth + 1); return w ? no(w) : true; }
  static const char *same(const Subschema *p, const J &j0, const J &root, SchemaParser::Version v, int depth, bool own = false) {
    if (!p) return "a subschema is missing"; if (depth > 8) return nullptr; const J *j = &j0; while (j->k == J::Obj && j->get("$ref")) { const string &r = j->get("$ref")->s; if (r == "#") { j = &root; continue; } j = root.get("definitions")->get(r.substr(14)); }
    Reader r(*j, root, v, depth); 
    if (j->k == J::Bool) { if (p->getAlwaysInvalid() == j->b) return "boolean schema"; }
    else { if (p->getAlwaysInvalid()) return "schema that never holds"; r.expect(); }
    const char *tk[] = {"title", "description", v == D4 || v == D3 ? "id" : "$id"};
    for (int i = 0; i < 3; ++i) { const J *t = j->k == J::Obj ? j->get(tk[i]) : nullptr; bool has = i == 0 ? p->hasTitle() : i == 1 ? p->hasDescription() : p->hasId(); if (has != !!t) return "presence of an annotation"; bool thrown = false; string g; try { g = i == 0 ? p->getTitle() : i == 1 ? p->getDescription() : p->getId(); } catch (const std::runtime_error &) { thrown = true; } if (thrown == has) return "exception for an absent annotation"; if (has && g != t->s) return "annotation"; }
    Subschema::ApplyFunction f = [&r](const constraints::Constraint &c) { return c.accept(r); }; if (!p->apply(f)) return "result of apply";
    if (r.good && !r.left.empty()) return "a keyword without a constraint"; return r.good ? nullptr : r.why;
  }
  void expect() {
    bool props = false; for (auto &m : s.o) { const string &k = m.first;
      if (k == "properties" || k == "patternProperties" || k == "additionalProperties") { if (!props) left.push_back("properties"); props = true; if (v == D3 && k == "properties") for (auto &q : m.second.o) { const J *rq = q.second.k == J::Obj ? q.second.get("required") : nullptr; if (rq && rq->b) left.push_back("required"); } }
      else if (k == "additionalItems" || k == "then" || k == "else" || k == "definitions" || k == "title" || k == "description" || k == "id" || k == "$id" || k == "x-y") continue;
      else if (v != D7 && (k == "exclusiveMaximum" || k == "exclusiveMinimum")) continue; else if (k == "uniqueItems" && !m.second.b) continue; else if (v == D3 && k == "required") continue;
      else left.push_back(k); } }
  template<typename C> bool list(const C &c, const J *j, const char *w) { if (!j) return true; size_t n = 0; bool one = j->k != J::Arr; if (one && j->k == J::Obj && j->o.empty()) { c.applyToSubschemas([&](unsigned, const Subschema *p) { ++n; sub(p, *j); return true; }); return is(n < 2, w); } c.applyToSubschemas([&](unsigned i, const Subschema *p) { is(i == n, "index of a subschema"); if (one ? n > 0 : n >= j->a.size()) { no(w); return false; } sub(p, one ? *j : j->a[n]); ++n; return true; }); return is(n == (one ? 1 : j->a.size()), w); }
  bool visit(const AllOfConstraint &c) override { return list(c, take(s.get("extends") ? "extends" : "allOf"), "allOf"); }
  bool visit(const AnyOfConstraint &c) override { return list(c, take("anyOf"), "anyOf"); }
  bool visit(const OneOfConstraint &c) override { return list(c, take("oneOf"), "oneOf"); }
  bool visit(const ConditionalConstraint &c) override { const J *j = take("if"); if (!j) return true; sub(c.getIfSubschema(), *j); const J *t = s.get("then"), *e = s.get("else"); if (t) sub(c.getThenSubschema(), *t); else is(!c.getThenSubschema(), "then"); if (e) sub(c.getElseSubschema(), *e); else is(!c.getElseSubschema(), "else"); return true; }
  static bool eqv(const adapters::FrozenValue &f, const J &j) { Doc d(j); RA a = d.ad(); Doc o(ja({j})); RA b = o.ad(); return f.equalTo(a, true) && !f.equalTo(b, true); }
  bool visit(const ConstConstraint &c) override { const J *j = take("const"); return j ? is(eqv(*c.getValue(), *j), "const") : true; }
  bool visit(const ContainsConstraint &c) override { const J *j = take("contains"); return j ? sub(c.getSubschema(), *j) : true; }
  bool visit(const DependenciesConstraint &c) override { const J *j = take("dependencies"); if (!j) return true; size_t np = 0, ns = 0, wp = 0, ws = 0; for (auto &m : j->o) (m.second.k == J::Arr || m.second.k == J::Str || (m.second.k == J::Obj && m.second.o.empty()) ? wp : ws)++;
    c.applyToPropertyDependencies([&](const auto &n, const auto &set) { ++np; const J *q = j->get(st(n)); if (!q) return no("dependencies"); size_t want = q->k == J::Str ? 1 : q->a.size(); is(set.size() == want, "dependencies"); for (auto &e : set) { bool in = false; if (q->k == J::Str) in = st(e) == q->s; else for (auto &x : q->a) in |= x.s == st(e); is(in, "dependencies"); } return true; });
    c.applyToSchemaDependencies([&](const auto &n, const Subschema *p) { ++ns; const J *q = j->get(st(n)); return q ? sub(p, *q) : no("dependencies"); }); return is(np == wp && ns == ws, "dependencies"); }
  bool visit(const EnumConstraint &c) override { const J *j = take("enum"); if (!j) return true; size_t n = 0; c.applyToValues([&](const adapters::FrozenValue &f) { if (n >= j->a.size()) { ++n; return false; } is(eqv(f, j->a[n]), "enum"); ++n; return true; }); return is(n == j->a.size(), "enum"); }
  bool visit(const FormatConstraint &c) override { const J *j = take("format"); return j ? is(c.getFormat() == j->s, "format") : true; }
  bool visit(const LinearItemsConstraint &c) override { const J *j = take("items"); if (!j) return true; if (j->k != J::Arr) return no("items"); size_t n = 0; is(c.getItemSubschemaCount() == j->a.size(), "items"); c.applyToItemSubschemas([&](unsigned i, const Subschema *p) { is(i == n, "index"); if (n >= j->a.size()) return no("items"); sub(p, j->a[n++]); return true; }); is(n == j->a.size(), "items"); const J *ad = s.get("additionalItems"); return addl(c.getAdditionalItemsSubschema(), ad); }
  bool addl(const Subschema *p, const J *ad) { if (!ad || (ad->k == J::Bool && ad->b)) return sub(p, jo()); if (ad->k == J::Bool) return is(!p, "additional false"); return sub(p, *ad); }
  bool visit(const MaximumConstraint &c) override { return lim(c.getMaximum(), c.getExclusiveMaximum(), "maximum", "exclusiveMaximum"); }
  bool visit(const MinimumConstraint &c) override { return lim(c.getMinimum(), c.getExclusiveMinimum(), "minimum", "exclusiveMinimum"); }
  bool lim(double m, bool e, const char *k, const char *x) { if (v == D7) { const J *j = take(e ? x : k); return j ? is(m == j->dbl(), k) : true; } const J *j = take(k), *q = s.get(x); return j ? is((m == j->dbl()) & (e == (q && q->b)), k) : true; }
  bool num(uint64_t n, const char *k) { const J *j = take(k); return j ? is(n == (uint64_t)j->i, k) : true; }
  bool visit(const MaxItemsConstraint &c) override { return num(c.getMaxItems(), "maxItems"); } bool visit(const MinItemsConstraint &c) override { return num(c.getMinItems(), "minItems"); }
  bool visit(const MaxLengthConstraint &c) override { return num(c.getMaxLength(), "maxLength"); } bool visit(const MinLengthConstraint &c) override { return num(c.getMinLength(), "minLength"); }
  bool visit(const MaxPropertiesConstraint &c) override { return num(c.getMaxProperties(), "maxProperties"); } bool visit(const MinPropertiesConstraint &c) override { return num(c.getMinProperties(), "minProperties"); }
  bool visit(const MultipleOfDoubleConstraint &c) override { const J *j = take(v == D3 ? "divisibleBy" : "multipleOf"); return j ? is(j->k == J::Dbl && c.getDivisor() == j->d, "multipleOf") : true; }
  bool visit(const MultipleOfIntConstraint &c) override { const J *j = take(v == D3 ? "divisibleBy" : "multipleOf"); return j ? is(j->k == J::Int && c.getDivisor() == j->i, "multipleOf") : true; }
  bool visit(const NotConstraint &c) override { const J *j = take("not"); return j ? sub(c.getSubschema(), *j) : true; }
  bool visit(const PatternConstraint &c) override { const J *j = take("pattern"); string p; return j ? is(c.getPattern(p) && p == j->s && c.getPattern<std::allocator<char>>() == j->s, "pattern") : true; }
  bool visit(const PolyConstraint &) override { return no("custom constraint"); }
  bool visit(const PropertiesConstraint &c) override { if (!take("properties") && !good) return true; const J *p = s.get("properties"), *q = s.get("patternProperties"); size_t n = 0, m = 0;
    c.applyToProperties([&](const auto &k, const Subschema *x) { ++n; const J *j = p ? p->get(st(k)) : nullptr; return j ? sub(x, *j) : no("properties"); }); c.applyToPatternProperties([&](const auto &k, const Subschema *x) { ++m; const J *j = q ? q->get(st(k)) : nullptr; return j ? sub(x, *j) : no("patternProperties"); });
    is(n == (p ? p->o.size() : 0) && m == (q ? q->o.size() : 0), "properties"); return addl(c.getAdditionalPropertiesSubschema(), s.get("additionalProperties")); }
  bool visit(const PropertyNamesConstraint &c) override { const J *j = take("propertyNames"); return j ? sub(c.getSubschema(), *j) : true; }
  bool visit(const RequiredConstraint &c) override { take("required"); if (!good) return true; std::vector<string> g; c.applyToRequiredProperties([&](const auto &n) { g.push_back(st(n)); return true; }); if (v == D3) { const J *p = s.get("properties"); if (g.size() != 1 || !p || !p->get(g[0])) return no("required"); const J *q = p->get(g[0])->get("required"); return is(q && q->b, "required"); } const J *j = s.get("required"); is(g.size() == j->a.size(), "required"); for (auto &x : j->a) { bool in = false; for (auto &y : g) in |= y == x.s; is(in, "required"); } return true; }
  bool visit(const SingularItemsConstraint &c) override { const J *j = take("items"); return j ? (j->k == J::Arr ? no("items") : sub(c.getItemsSubschema(), *j)) : true; }
  bool visit(const TypeConstraint &c) override { const J *j = take("type"); if (!j) return true; JV one{*j}; const JV &a = j->k == J::Arr ? j->a : one; std::vector<const J *> sc; size_t nn = 0, gn = 0, gs = 0; static const char *N[] = {"any", "array", "boolean", "integer", "null", "number", "object", "string"}; for (auto &t : a) if (t.k == J::Str) ++nn; else sc.push_back(&t);
    c.applyToNamedTypes([&](constraints::TypeConstraint::JsonType t) { ++gn; bool in = false; for (auto &x : a) in |= x.k == J::Str && x.s == N[t]; return in ? true : no("type"); }); c.applyToSchemaTypes([&](unsigned i, const Subschema *p) { is(i == gs, "index"); if (gs >= sc.size()) return no("type"); sub(p, *sc[gs++]); return true; }); return is(nn == gn && gs == sc.size(), "type"); }
  bool visit(const UniqueItemsConstraint &) override { take("uniqueItems"); return true; }
};
static bool strstr_(const char *s, const char *k) { for (; *s; ++s) { size_t i = 0; while (k[i] && s[i] == k[i]) ++i; if (!k[i]) return true; } return false; }
static bool noInst(Gen &g, uint64_t t, uint64_t dr) { if (!(TPL[t].drafts >> dr & 1)) return false; JV a; static const char *N[] = {"v0", "v1", "v2"}; for (int i = 0; i < 3; ++i) a.push_back(has(TPL[t].s, '0' + i) ? ji((int64_t)vs_sym(N[i], 64)) : jn()); if (strstr_(TPL[t].s, "Items':$0")) vs_assume(a[0].i >= 0); g.s = P(TPL[t].s, a); g.x = jn(); g.v = gver(dr); return true; }
static void check(const Schema &s, const J &j, SchemaParser::Version v, const char *at) { const char *w = Reader::same(s.root(), j, j, v, 0); if (w) vs_assert(false, (string(at) + ": " + w).c_str()); }
//@ entry parsed shards=83 reach=read cost=3
VS_ENTRY(parsed) {
  uint64_t t = vs_shard_choice("schema", NTPL), dr = vs_choice("draft", 3), w = vs_choice("wrap", NWRAP); Gen g; if (!noInst(g, t, dr) || !wrap(g, w)) return;
  
  Schema s; try { parseInto(s, g.s, g.v); } catch (const std::exception &) { vs_assert(false, "not parsed"); return; } vs_reach("read"); check(s, g.s, g.v, "parsed"); if (w % 4 == 0) { Schema m(std::move(s)); check(m, g.s, g.v, "moved"); Schema c; Subschema::ApplyFunction f = [&c](const constraints::Constraint &x) { c.addConstraint(x); return true; }; m.apply(f); if (g.s.k == J::Obj) { J top = g.s; check(c, top, g.v, "copied"); } }
}

//@ entry notes shards=24 reach=any cost=2
VS_ENTRY(notes) { // titles, descriptions and identifiers belong to the schema that has them
  uint64_t where = vs_shard_choice("where", 6), ver = vs_shard_choice("draft", 2), rid = vs_shard_choice("rootid", 2), present = vs_choice("present", 8); const char *idk = ver ? "id" : "$id"; J in = P("{'type':'integer'}"); static const char *K[] = {"title", "description", "id"};
  for (int i = 0; i < 3; ++i) if (present >> i & 1) { string n(K[i]); string b = vs_bytes(n.c_str(), vs_choice((n + "len").c_str(), 4)); if (i == 2) { for (char c : b) vs_assume((c >= 'a') & (c <= 'z')); b = "http://h/" + b; } in.o.push_back({i == 2 ? idk : K[i], js(b)}); }
  J s; switch (where) { case 0: s = in; break; case 1: s = jo({{"properties", jo({{"a", in}, {"b", jo()}})}}); break; case 2: s = jo({{"items", in}}); break; case 3: s = jo({{"allOf", ja({jo(), in, P("{'title':'t'}")})}}); break; case 4: s = jo({{"items", ja({P("{'description':'d'}"), in})}, {"additionalItems", in}}); break; default: s = jo({{"not", jo({{"not", in}, {"title", js("")}})}}); }
  if (rid) { if (where == 0) { if (present >> 2 & 1) return; } s.o.push_back({idk, js("http://root/x")}); } if (where == 4 && present >> 2 & 1) return;
  Schema sc; parseInto(sc, s, ver ? D4 : D7); vs_reach("any"); check(sc, s, ver ? D4 : D7, "notes"); Schema t; t = std::move(sc); check(t, s, ver ? D4 : D7, "moved"); }
//@ entry notstring shards=2 reach=rejected
VS_ENTRY(notstring) { // an annotation that is not a string is an error, an identifier that is not a string is none
  uint64_t k = vs_choice("k", 3); static const char *V[] = {"[1]", "[[]]", "{'a':'b'}"}; uint64_t w = vs_shard_choice("which", 2); const char *K[] = {"title", "description"}; J s = jo({{K[w], P(V[k])}}); vs_assert(!parses(s), "title or description of another type"); vs_assert(!parses(jo({{"items", s}}), D4), "nested"); vs_reach("rejected"); Schema sc; parseInto(sc, jo({{"$id", P(V[k])}})); vs_assert(!sc.hasId(), "identifier of another type"); }
static std::vector<string> stops; // what a visit saw
template<typename F> static int upto(uint64_t stop, F each) { int n = 0; each([&](const auto &...) { ++n; return (uint64_t)n <= stop; }); return n; }
//@ entry stop shards=8 reach=early,all
VS_ENTRY(stop) { // a visit ends when the function says so
  using namespace constraints; uint64_t k = vs_shard_choice("k", 8), n = vs_choice("n", 4), at = vs_sym("stop", 8); Subschema a[3]; int got = 0, want; static const char *N[] = {"p", "q", "r"};
  switch (k) {
  case 0: { AllOfConstraint c; for (uint64_t i = 0; i < n; ++i) c.addSubschema(&a[i]); got = upto(at, [&](auto f) { c.applyToSubschemas(f); }); AnyOfConstraint d; OneOfConstraint e; for (uint64_t i = 0; i < n; ++i) d.addSubschema(&a[i]), e.addSubschema(&a[i]); vs_assert(upto(at, [&](auto f) { d.applyToSubschemas(f); }) == got && upto(at, [&](auto f) { e.applyToSubschemas(f); }) == got, "visits"); break; }
  case 1: { LinearItemsConstraint c; for (uint64_t i = 0; i < n; ++i) c.addItemSubschema(&a[i]); got = upto(at, [&](auto f) { c.applyToItemSubschemas(f); }); break; }
  case 2: { EnumConstraint c; for (uint64_t i = 0; i < n; ++i) { Doc d(ji((int64_t)i)); RA x = d.ad(); c.addValue(x); } got = upto(at, [&](auto f) { c.applyToValues(f); }); break; }
  case 3: { PropertiesConstraint c; for (uint64_t i = 0; i < n; ++i) c.addPropertySubschema(N[i], &a[i]), c.addPatternPropertySubschema(N[i], &a[i]); got = upto(at, [&](auto f) { c.applyToProperties(f); }); vs_assert(upto(at, [&](auto f) { c.applyToPatternProperties(f); }) == got, "visits"); break; }
  case 4: { RequiredConstraint c; for (uint64_t i = 0; i < n; ++i) c.addRequiredProperty(N[i]); got = upto(at, [&](auto f) { c.applyToRequiredProperties(f); }); break; }
  case 5: { DependenciesConstraint c; for (uint64_t i = 0; i < n; ++i) c.addPropertyDependency(string(N[i]), string("z")).addSchemaDependency(string(N[i]), &a[i]); got = upto(at, [&](auto f) { c.applyToPropertyDependencies(f); }); vs_assert(upto(at, [&](auto f) { c.applyToSchemaDependencies(f); }) == got, "visits"); break; }
  case 6: { TypeConstraint c; for (uint64_t i = 0; i < n; ++i) c.addSchemaType(&a[i]), c.addNamedType((TypeConstraint::JsonType)i); got = upto(at, [&](auto f) { c.applyToNamedTypes(f); }); vs_assert(upto(at, [&](auto f) { c.applyToSchemaTypes(f); }) == got, "visits"); break; }
  default: { Subschema s; for (uint64_t i = 0; i < n; ++i) { MaximumConstraint m; m.setMaximum((double)i); s.addConstraint(m); } int all = 0, strict = 0; std::vector<double> seen; Subschema::ApplyFunction f = [&](const Constraint &) { return (uint64_t)++all <= at; }; bool r1 = s.apply(f); Subschema::ApplyFunction g = [&](const Constraint &c) { seen.push_back(static_cast<const MaximumConstraint &>(c).getMaximum()); return (uint64_t)++strict <= at; }; bool r2 = s.applyStrict(g); vs_assert(all == (int)n, "apply continues after a failure"); vs_assert(r1 == (at >= n) && r2 == (at >= n), "result of apply"); for (size_t i = 0; i < seen.size(); ++i) vs_assert(seen[i] == (double)i, "order of constraints"); got = strict; } }
  want = (int)(at + 1 < n ? at + 1 : n); vs_reach(want < (int)n ? "early" : "all"); vs_observe("got", got); vs_assert(got == want, "visit stops where told");
}
static void *xAlloc(size_t n) { return malloc(n); } static void xFree(void *p) { free(p); }
struct Grab : Reader { uint64_t a = 0, b = 0; double d = 0; string s; bool flag = false; static const J &nil() { static J j = jo(); return j; } Grab() : Reader(nil(), nil(), D7, 0) {}
  bool visit(const MaximumConstraint &c) override { d = c.getMaximum(); flag = c.getExclusiveMaximum(); return true; } bool visit(const MinimumConstraint &c) override { d = c.getMinimum(); flag = c.getExclusiveMinimum(); return true; }
  bool visit(const MaxItemsConstraint &c) override { a = c.getMaxItems(); return true; } bool visit(const MinItemsConstraint &c) override { a = c.getMinItems(); return true; } bool visit(const MaxLengthConstraint &c) override { a = c.getMaxLength(); return true; } bool visit(const MinLengthConstraint &c) override { a = c.getMinLength(); return true; } bool visit(const MaxPropertiesConstraint &c) override { a = c.getMaxProperties(); return true; } bool visit(const MinPropertiesConstraint &c) override { a = c.getMinProperties(); return true; }
  bool visit(const MultipleOfIntConstraint &c) override { a = (uint64_t)c.getDivisor(); return true; } bool visit(const MultipleOfDoubleConstraint &c) override { d = c.getDivisor(); return true; }
  bool visit(const PatternConstraint &c) override { c.getPattern(s); return true; } bool visit(const FormatConstraint &c) override { s = c.getFormat(); return true; }
  bool visit(const RequiredConstraint &c) override { c.applyToRequiredProperties([&](const auto &n) { s = st(n); ++a; return true; }); return true; }
  bool visit(const ConditionalConstraint &c) override { a = (uint64_t)c.getIfSubschema(), b = (uint64_t)c.getThenSubschema() ^ (uint64_t)c.getElseSubschema() * 3; return true; }
  bool visit(const ContainsConstraint &c) override { a = (uint64_t)c.getSubschema(); return true; } bool visit(const NotConstraint &c) override { a = (uint64_t)c.getSubschema(); return true; } bool visit(const PropertyNamesConstraint &c) override { a = (uint64_t)c.getSubschema(); return true; } bool visit(const SingularItemsConstraint &c) override { a = (uint64_t)c.getItemsSubschema(); return true; }
  bool visit(const ConstConstraint &c) override { Doc d(js("k")); RA x = d.ad(); flag = c.getValue()->equalTo(x, true); return true; } bool visit(const UniqueItemsConstraint &) override { ++a; return true; }
};
//@ entry made shards=42 reach=any
VS_ENTRY(made) { // copies of a constraint carry the parameters that were set
  using namespace constraints; uint64_t k = vs_shard_choice("k", 21), mem = vs_shard_choice("memory", 2), twice = vs_choice("twice", 2); uint64_t n = vs_sym("n", 64); double x = vs_double("x"); vs_assume(!isNan(x)); bool fl = vs_choice("flag", 2); string t; Subschema p, q, r; if (k >= 10 && k <= 12) t = vs_bytes("s", vs_choice("len", 4)); Schema s1, s2(xAlloc, xFree); Schema &s = mem ? s2 : s1; std::unique_ptr<Constraint> c; Grab g; vs_reach("any"); bool ok = true; uint64_t P0 = (uint64_t)&p;
  switch (k) {
#define NUM(i, T) case i: { T##Constraint m; m.set##T(n); s.addConstraint(m); break; }
  NUM(0, MaxItems) NUM(1, MinItems) NUM(2, MaxLength) NUM(3, MinLength) NUM(4, MaxProperties) NUM(5, MinProperties)
  case 6: { MaximumConstraint m; m.setMaximum(x); m.setExclusiveMaximum(fl); s.addConstraint(m); break; } case 7: { MinimumConstraint m; m.setMinimum(x); m.setExclusiveMinimum(fl); s.addConstraint(m); break; }
  case 8: { MultipleOfIntConstraint m; vs_assume((int64_t)n > 0); m.setDivisor((int64_t)n); s.addConstraint(m); break; } case 9: { MultipleOfDoubleConstraint m; vs_assume((x > 0) & isFin(x)); m.setDivisor(x); s.addConstraint(m); break; }
  case 10: { PatternConstraint m; m.setPattern(t); s.addConstraint(m); break; } case 11: { FormatConstraint m; m.setFormat(t); s.addConstraint(m); break; } case 12: { RequiredConstraint m; vs_assert(m.addRequiredProperty(t) && !m.addRequiredProperty(t), "name added once"); s.addConstraint(m); break; }
  case 13: { ConditionalConstraint m; m.setIfSubschema(&p); m.setThenSubschema(&q); m.setElseSubschema(fl ? &r : nullptr); s.addConstraint(m); break; }
  case 14: { ContainsConstraint m; m.setSubschema(&p); s.addConstraint(m); break; } case 15: { NotConstraint m; m.setSubschema(&p); s.addConstraint(m); break; } case 16: { PropertyNamesConstraint m; m.setSubschema(&p); s.addConstraint(m); break; } case 17: { SingularItemsConstraint m; m.setItemsSubschema(&p); s.addConstraint(m); break; }
  case 18: { ConstConstraint m; { Doc d(js(fl ? "k" : "j")); RA y = d.ad(); m.setValue(y); } s.addConstraint(m); break; } case 19: { UniqueItemsConstraint m; s.addConstraint(m); break; }
  default: { MultipleOfIntConstraint m; bool th = false; try { m.setDivisor((int64_t)n); } catch (const std::runtime_error &) { th = true; } vs_assert(th == ((int64_t)n <= 0), "divisor"); MultipleOfDoubleConstraint e; th = false; try { e.setDivisor(x); } catch (const std::runtime_error &) { th = true; } vs_assert(th == !((x > 0) & isFin(x)), "divisor"); return; } }
  Schema s3; Subschema::ApplyFunction cp = [&](const Constraint &m) { s3.addConstraint(m); return true; }; if (twice) s.apply(cp); int seen = 0; Subschema::ApplyFunction rd = [&](const Constraint &m) { ++seen; return m.accept(g); }; vs_assert((twice ? s3 : s).apply(rd) && seen == 1, "one constraint");
  if (k < 6 || k == 8) ok = g.a == n; else if (k < 10) ok = (g.d == x) & (k == 9 || g.flag == fl); else if (k < 13) ok = g.s == t && (k < 12 || g.a == 1); else if (k == 13) ok = g.a == P0 && g.b == ((uint64_t)&q ^ (fl ? (uint64_t)&r : 0) * 3); else if (k < 18) ok = g.a == P0; else if (k == 18) ok = g.flag == fl; else ok = g.a == 1;
  vs_assert(ok, "parameters of a copy"); }

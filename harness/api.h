// Every class of constraint, built through the construction API: added to a schema by reference, then changed and destroyed.
// at: the subschema it is added to (the root, or one that the caller attaches). schema, x: the equivalent schema, and an instance.
#pragma once
#include "gen.h"
enum { NAPI = 34 };
struct Api { valijson::Schema &s; const valijson::Subschema *at; bool sub; int8_t p, q; J schema, x; valijson::SchemaParser::Version ver;
  void *(*fa)(size_t); void (*ff)(void *);
  template <class T> T mk() { if constexpr (std::is_constructible<T, void *(*)(size_t), void (*)(void *)>::value) { if (fa) return T(fa, ff); } return T(); }
  void add(const valijson::constraints::Constraint &c) { if (sub) s.addConstraintToSubschema(c, at); else s.addConstraint(c); }
  void run(uint64_t k) {
  using namespace valijson; using namespace valijson::constraints; using std::string; J jp = ji(p), jq = ji(q); JV a{jp, jq};
  auto maxi = [&](int8_t v) { const Subschema *b = s.createSubschema(); MaximumConstraint m = mk<MaximumConstraint>(); m.setMaximum(v); m.setExclusiveMaximum(false); s.addConstraintToSubschema(m, b); m.setMaximum(v + 1); return b; };
  switch (k) {
  case 0: { MaximumConstraint c = mk<MaximumConstraint>(); c.setMaximum(p); c.setExclusiveMaximum(true); add(c); c.setMaximum(1000); c.setExclusiveMaximum(false); schema = P("{'exclusiveMaximum':$0}", a); break; }
  case 1: { MinimumConstraint c = mk<MinimumConstraint>(); c.setMinimum(p); c.setExclusiveMinimum(true); add(c); c.setMinimum(-1000); c.setExclusiveMinimum(false); schema = P("{'exclusiveMinimum':$0}", a); break; }
  case 2: { MultipleOfIntConstraint c = mk<MultipleOfIntConstraint>(); c.setDivisor(3); add(c); c.setDivisor(1); schema = P("{'multipleOf':3}"); break; }
  case 3: { MultipleOfDoubleConstraint c = mk<MultipleOfDoubleConstraint>(); c.setDivisor(0.5); add(c); c.setDivisor(1000); schema = P("{'multipleOf':0.5}"); x = vs_choice("h", 2) ? jd(1.5) : jd(1.25); break; }
  case 4: { EnumConstraint c = mk<EnumConstraint>(); Doc d(P("[[$0],'s']", a)); for (auto &&v : d.ad().asArray()) c.addValue(v); add(c); Doc e(x); c.addValue(e.ad()); c.addValue(Doc(ja({x})).ad()); schema = P("{'enum':[[$0],'s']}", a); if (vs_choice("w", 2)) x = ja({x}); break; }
  case 5: { ConstConstraint c = mk<ConstConstraint>(); { Doc d(P("{'a':[$0]}", a)); c.setValue(d.ad()); } add(c); { Doc d(jn()); c.setValue(d.ad()); } schema = P("{'const':{'a':[$0]}}", a); x = P("{'a':[$0]}", {x}); break; }
  case 6: { MaxItemsConstraint c = mk<MaxItemsConstraint>(); c.setMaxItems(1); add(c); c.setMaxItems(9); schema = P("{'maxItems':1}"); x = vs_choice("n", 2) ? P("[1]") : P("[1,2]"); break; }
  case 7: { MinItemsConstraint c = mk<MinItemsConstraint>(); c.setMinItems(2); add(c); c.setMinItems(0); schema = P("{'minItems':2}"); x = vs_choice("n", 2) ? P("[1]") : P("[1,2]"); break; }
  case 8: { MaxLengthConstraint c = mk<MaxLengthConstraint>(); c.setMaxLength(1); add(c); c.setMaxLength(9); schema = P("{'maxLength':1}"); x = js(vs_choice("n", 2) ? "a" : "ab"); break; }
  case 9: { MinLengthConstraint c = mk<MinLengthConstraint>(); c.setMinLength(2); add(c); c.setMinLength(0); schema = P("{'minLength':2}"); x = js(vs_choice("n", 2) ? "a" : "ab"); break; }
  case 10: { MaxPropertiesConstraint c = mk<MaxPropertiesConstraint>(); c.setMaxProperties(1); add(c); c.setMaxProperties(9); schema = P("{'maxProperties':1}"); x = vs_choice("n", 2) ? P("{'a':1}") : P("{'a':1,'b':1}"); break; }
  case 11: { MinPropertiesConstraint c = mk<MinPropertiesConstraint>(); c.setMinProperties(2); add(c); c.setMinProperties(0); schema = P("{'minProperties':2}"); x = vs_choice("n", 2) ? P("{'a':1}") : P("{'a':1,'b':1}"); break; }
  case 12: { PatternConstraint c = mk<PatternConstraint>(); c.setPattern(string("^a+$")); add(c); c.setPattern(string("b")); schema = P("{'pattern':'^a+$'}"); x = js(vs_choice("n", 2) ? "aa" : "ab"); break; }
  case 13: { RequiredConstraint c = mk<RequiredConstraint>(); c.addRequiredProperty("a"); c.addRequiredProperty(string("b/~")); add(c); c.addRequiredProperty("zz"); schema = P("{'required':['a','b/~']}"); x = vs_choice("n", 2) ? P("{'a':1,'b/~':2}") : P("{'a':1}"); break; }
  case 14: { TypeConstraint c = mk<TypeConstraint>(); c.addNamedType(TypeConstraint::kString); c.addNamedType(TypeConstraint::kNull); add(c); c.addNamedType(TypeConstraint::kInteger); schema = P("{'type':['string','null']}"); if (vs_choice("n", 2)) x = js("s"); break; }
  case 15: { TypeConstraint c = mk<TypeConstraint>(); c.addSchemaType(maxi(p)); c.addNamedType(TypeConstraint::kString); add(c); c.addSchemaType(s.emptySubschema()); schema = P("{'type':[{'maximum':$0},'string']}", a); ver = D3; break; }
  case 16: { AllOfConstraint c = mk<AllOfConstraint>(); c.addSubschema(maxi(p)); c.addSubschema(maxi(q)); add(c); c.addSubschema(s.createSubschema()); schema = P("{'allOf':[{'maximum':$0},{'maximum':$1}]}", a); break; }
  case 17: { AnyOfConstraint c = mk<AnyOfConstraint>(); c.addSubschema(maxi(p)); c.addSubschema(maxi(q)); add(c); c.addSubschema(s.emptySubschema()); schema = P("{'anyOf':[{'maximum':$0},{'maximum':$1}]}", a); break; }
  case 18: { OneOfConstraint c = mk<OneOfConstraint>(); c.addSubschema(maxi(p)); c.addSubschema(maxi(q)); add(c); c.addSubschema(s.emptySubschema()); schema = P("{'oneOf':[{'maximum':$0},{'maximum':$1}]}", a); break; }
  case 19: { NotConstraint c = mk<NotConstraint>(); c.setSubschema(maxi(p)); add(c); c.setSubschema(s.emptySubschema()); schema = P("{'not':{'maximum':$0}}", a); break; }
  case 20: { ConditionalConstraint c = mk<ConditionalConstraint>(); c.setIfSubschema(maxi(p)); c.setThenSubschema(maxi(q)); c.setElseSubschema(s.emptySubschema()); add(c); c.setThenSubschema(s.emptySubschema()); schema = P("{'if':{'maximum':$0},'then':{'maximum':$1}}", a); break; }
  case 21: { ConditionalConstraint c = mk<ConditionalConstraint>(); c.setIfSubschema(maxi(p)); c.setElseSubschema(maxi(q)); add(c); c.setElseSubschema(s.emptySubschema()); schema = P("{'if':{'maximum':$0},'else':{'maximum':$1}}", a); break; }
  case 22: { ContainsConstraint c = mk<ContainsConstraint>(); c.setSubschema(maxi(p)); add(c); c.setSubschema(s.emptySubschema()); schema = P("{'contains':{'maximum':$0}}", a); x = ja({x, js("s")}); x.a.pop_back(); break; }
  case 23: { SingularItemsConstraint c = mk<SingularItemsConstraint>(); c.setItemsSubschema(maxi(p)); add(c); c.setItemsSubschema(s.emptySubschema()); schema = P("{'items':{'maximum':$0}}", a); x = ja({jp, x}); break; }
  case 24: { LinearItemsConstraint c = mk<LinearItemsConstraint>(); c.addItemSubschema(maxi(p)); c.setAdditionalItemsSubschema(maxi(q)); add(c); c.addItemSubschema(s.emptySubschema()); c.setAdditionalItemsSubschema(s.emptySubschema()); schema = P("{'items':[{'maximum':$0}],'additionalItems':{'maximum':$1}}", a); x = vs_choice("n", 2) ? ja({x}) : ja({jp, x}); break; }
  case 25: { LinearItemsConstraint c = mk<LinearItemsConstraint>(); c.addItemSubschema(maxi(p)); add(c); c.setAdditionalItemsSubschema(s.emptySubschema()); schema = P("{'items':[{'maximum':$0}],'additionalItems':false}", a); x = vs_choice("n", 2) ? ja({x}) : ja({jp, x}); break; }
  case 26: { PropertiesConstraint c = mk<PropertiesConstraint>(); c.addPropertySubschema("a/b", maxi(p)); c.addPatternPropertySubschema("^z", maxi(q)); c.setAdditionalPropertiesSubschema(s.emptySubschema()); add(c); c.addPropertySubschema("w", maxi(-128)); c.setAdditionalPropertiesSubschema(nullptr); schema = P("{'properties':{'a/b':{'maximum':$0}},'patternProperties':{'^z':{'maximum':$1}}}", a); static const char *N[] = {"a/b", "zq", "w"}; x = jo({{N[vs_choice("n", 3)], x}}); break; }
  case 27: { PropertiesConstraint c = mk<PropertiesConstraint>(); c.addPropertySubschema(string("a"), maxi(p)); c.addPatternPropertySubschema(string("^z"), maxi(q)); add(c); c.setAdditionalPropertiesSubschema(s.emptySubschema()); schema = P("{'properties':{'a':{'maximum':$0}},'patternProperties':{'^z':{'maximum':$1}},'additionalProperties':false}", a); static const char *N[] = {"a", "zq", "w"}; x = jo({{N[vs_choice("n", 3)], x}}); break; }
  case 28: { PropertyNamesConstraint c = mk<PropertyNamesConstraint>(); const Subschema *b = s.createSubschema(); { MaxLengthConstraint m = mk<MaxLengthConstraint>(); m.setMaxLength(1); s.addConstraintToSubschema(m, b); } c.setSubschema(b); add(c); c.setSubschema(s.emptySubschema()); schema = P("{'propertyNames':{'maxLength':1}}"); x = vs_choice("n", 2) ? P("{'a':1}") : P("{'ab':1}"); break; }
  case 29: { DependenciesConstraint c = mk<DependenciesConstraint>(); c.addPropertyDependency(string("a"), string("b")).addSchemaDependency(string("c"), maxi(p)); add(c); c.addPropertyDependency(string("a"), string("zz")); schema = P("{'dependencies':{'a':['b'],'c':{'maximum':$0}}}", a); static const char *X[] = {"{'a':1}", "{'a':1,'b':2}", "{'c':1}", "{}"}; x = P(X[vs_choice("n", 4)]); break; }
  case 30: { UniqueItemsConstraint c = mk<UniqueItemsConstraint>(); add(c); schema = P("{'uniqueItems':true}"); x = ja({jp, x}); break; }
  case 31: { FormatConstraint c = mk<FormatConstraint>(); c.setFormat("ipv4"); add(c); c.setFormat("none"); schema = P("{'format':'ipv4'}"); x = js(vs_choice("n", 2) ? "1.2.3.4" : "1.2.3.256"); break; }
  case 32: { std::vector<string> v{"b", "c"}; DependenciesConstraint c = mk<DependenciesConstraint>(); c.addPropertyDependencies(string("a"), v); add(c); v[0] = "zz"; schema = P("{'dependencies':{'a':['b','c']}}"); static const char *X[] = {"{'a':1,'b':1}", "{'a':1,'b':2,'c':3}"}; x = P(X[vs_choice("n", 2)]); break; }
  default: { s.setAlwaysInvalid(at, true); schema = jb(false); break; }
  }
  }
};

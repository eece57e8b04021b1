#pragma once
// Schema and instance templates covering every keyword, and contexts to nest them in.
#include "ref.h"
struct Tpl { const char *s; unsigned drafts; const char *x[8]; }; // drafts: 1 = Draft 7, 2 = Draft 4, 4 = Draft 3
static const Tpl TPL[] = {
  {"{'type':'integer'}", 7, {"$0", "'s'", "1.5", "'12'", "true", "'true'", "2.0"}},
  {"{'type':['string','null']}", 7, {"'s'", "null", "$0", "[]"}}, {"{'type':['boolean','array','number']}", 7, {"'true'", "''", "$0", "[]", "'1.5'", "{}", "0", "false"}},
  {"{'type':[{'type':'string','minLength':2},{'enum':[$0]},'boolean']}", 4, {"'s'", "$1", "true", "{}"}},
  {"{'type':{'type':'integer','minimum':$0}}", 4, {"$1", "'s'"}},
  {"{'enum':[$0,'s',[1],{'a':null}]}", 7, {"$1", "'s'", "[1]", "{'a':null}", "{'a':0}"}},
  {"{'const':$0}", 1, {"$1", "'s'"}}, {"{'const':{'a':[$0,null]}}", 1, {"{'a':[$1,null]}", "{'a':[null,$1]}"}},
  {"{'minimum':$0}", 7, {"$1", "'s'"}}, {"{'maximum':$0}", 7, {"$1"}}, {"{'exclusiveMinimum':$0}", 1, {"$1"}}, {"{'exclusiveMaximum':$0,'minimum':3}", 1, {"$1"}}, {"{'minimum':$0,'exclusiveMinimum':true,'maximum':$1,'exclusiveMaximum':true}", 6, {"$2"}},
  {"{'multipleOf':3}", 3, {"$0", "2.5", "'s'"}}, {"{'multipleOf':0.5}", 3, {"1.5", "1.25", "$0"}}, {"{'divisibleBy':4}", 4, {"$0", "3.5"}},
  {"{'minLength':2}", 7, {"'a'", "'ab'", "''"}}, {"{'maxLength':1}", 7, {"'a'", "'ab'"}}, {"{'pattern':'^[a-c]+$'}", 7, {"'abc'", "'xyz'", "$0"}}, {"{'format':'date'}", 7, {"'2020-02-29'", "'2021-02-29'", "'x'", "'2020-13-01'"}}, {"{'format':'time'}", 7, {"'23:59:60Z'", "'22:59:60Z'", "'x'"}}, {"{'format':'date-time'}", 7, {"'2020-02-29T00:00:00Z'", "'2021-02-29T00:00:00Z'", "'x'", "'2020-02-29T00:00:60Z'"}}, {"{'format':'ipv4'}", 7, {"'1.2.3.4'", "'1.2.3.256'"}},
  {"{'minItems':1,'maxItems':2}", 7, {"[]", "[1]", "[1,2,3]"}}, {"{'uniqueItems':true}", 7, {"[$0,$1]", "[$0,'s',$1]", "[[$0],[$1],{}]"}},
  {"{'items':{'maximum':$0}}", 7, {"[$1]", "[1,$1]", "[]", "{}"}}, {"{'items':[{'maximum':$0},{'type':'string'}]}", 7, {"[$1]", "[$1,'s',null]", "[$1,1]"}}, {"{'items':[{'enum':[$0]}],'additionalItems':false}", 7, {"[$1]", "[$1,1]", "[]"}}, {"{'items':[{'enum':[$0]},{'type':'integer'}],'additionalItems':{'type':'string'}}", 7, {"[$1,2,'s']", "[$1,2,3]", "['s',2,'s']"}}, {"{'items':[],'additionalItems':{'enum':[$0]}}", 7, {"[$1]", "[]"}},
  {"{'contains':{'enum':[$0]}}", 1, {"[$1,2]", "[]", "{}", "[1,'x',$1,4]", "[1,2,3,4,$1]"}},
  {"{'minProperties':1,'maxProperties':2}", 7, {"{}", "{'a':1}", "{'a':1,'b':2,'c':3}"}}, {"{'required':['a','b/c']}", 3, {"{'a':1}", "{'b/c':1,'a':2}", "[]"}}, {"{'properties':{'a':{'required':true},'b':{'required':false,'type':'string'}}}", 4, {"{'a':1}", "{'b':'s'}", "{'a':1,'b':2}"}},
  {"{'properties':{'a':{'maximum':$0},'~b':{'type':'string'}}}", 7, {"{'a':$1}", "{'~b':1}", "{'a':$1,'~b':'s'}", "[]"}}, {"{'patternProperties':{'^a':{'maximum':$0},'b$':{'type':'integer'}}}", 7, {"{'a/x':$1}", "{'ab':'s'}", "{'ab':$1,'z':null}"}}, {"{'properties':{'a':{}},'patternProperties':{'^b':{'enum':[$0]}},'additionalProperties':false}", 7, {"{'a':1,'b':$1}", "{'c':1}"}}, {"{'additionalProperties':{'enum':[$0]}}", 7, {"{'x':$1}", "{'x/~':$1,'y':$0}", "{}"}},
  {"{'dependencies':{'a':['b','c'],'b':{'maxProperties':1}}}", 7, {"{'a':1}", "{'b':1}", "{'a':1,'b':2,'c':3}"}}, {"{'dependencies':{'a':'b'}}", 4, {"{'a':1}", "{'b':1}"}}, {"{'propertyNames':{'maxLength':1}}", 1, {"{'a':1}", "{'ab':1}", "{}"}}, {"{'propertyNames':false}", 1, {"{'a':1}", "{}"}},
  {"{'allOf':[{'maximum':$0},{'type':'integer'}]}", 7, {"$1", "'s'"}}, {"{'anyOf':[{'maximum':$0},{'enum':[9]}]}", 7, {"$1"}}, {"{'anyOf':[{'items':{'type':'string'}},{'minItems':2}]}", 7, {"[1]", "['s']", "[1,2]"}}, {"{'oneOf':[{'maximum':$0},{'enum':[9,'s']}]}", 7, {"$1", "'s'"}}, {"{'oneOf':[{'type':'array'},{'maxItems':$0},{'type':'null'}]}", 7, {"[]", "null", "[1,1]"}}, {"{'not':{'enum':[$0]}}", 7, {"$1"}}, {"{'not':{}}", 7, {"$0"}},
  {"{'if':{'enum':[$0]},'then':{'type':'string'},'else':{'maximum':200}}", 1, {"$1", "'s'"}}, {"{'if':false,'then':false}", 1, {"$0"}}, {"{'if':true,'then':false}", 1, {"$0", "{'a':1}"}}, {"{'if':{'maximum':$0},'else':{'not':{}}}", 1, {"$1"}},
  {"{'extends':{'maximum':$0}}", 4, {"$1"}}, {"{'extends':[{'maximum':$0},{'type':'integer'}],'type':'any'}", 4, {"$1", "'s'"}},
  {"true", 1, {"$0"}}, {"false", 1, {"$0", "[]", "{'a':1}"}}, {"{}", 7, {"$0", "'s'"}},
  {"{'type':'object','properties':{'a':{'type':'array','items':{'properties':{'b':{'maximum':$0}},'required':['b']}}}}", 3, {"{'a':[{'b':$1}]}", "{'a':[{},{'b':$1},1]}", "{'a':[[]]}"}},
  {"{'type':'integer','minimum':$0,'enum':[$0,$1,7],'not':{'enum':[$1]}}", 7, {"$2", "'s'"}},
  // larger values: effects of a third, fourth or fifth element
  {"{'items':{'maximum':$0}}", 7, {"[1,2,3,$1]", "[1,$1,3,4,5,6]"}}, {"{'items':[{},{'type':'integer'}],'additionalItems':{'maximum':$0}}", 7, {"[1,2,3,4,5,$1]", "[1,'s',$1,1]", "[1,2,3,$1,5,6,7]"}}, {"{'items':[{},{},{},{'maximum':$0}],'additionalItems':false}", 7, {"[1,2,3,$1]", "[1,2,3,$1,5]", "[$1,$1,$1]"}},
  {"{'uniqueItems':true}", 7, {"[1,2,3,$0,5,$1]", "[{'a':[1]},'s',null,{'a':[$0]},'t']", "[$0,'1',true,[],{},null,$1]", "['a','b','c','a']"}}, {"{'minItems':$0,'maxItems':5}", 7, {"[1,2,3]", "[1,2,3,4,5,6]", "[1,2,3,4,5]"}},
  {"{'properties':{'a':{'type':'integer'},'b':{'maximum':$0},'c':{},'d':{'type':'string'}},'additionalProperties':false}", 7, {"{'a':1,'b':$1,'c':3,'d':'s'}", "{'d':'s','b':$1}", "{'c':1,'d':2}", "{'a':1,'b':2,'c':3,'d':'s','e':5}"}},
  {"{'properties':{'a':{},'ab':{}},'patternProperties':{'^a':{'maximum':$0},'b$':{'type':'integer'},'^z':{}},'additionalProperties':{'type':'string'}}", 7, {"{'a':$1,'ab':2}", "{'a':1,'ab':'s'}", "{'x':'s','y':'t','ab':$1}", "{'x':'s','z':1,'y':2}"}},
  {"{'required':['a','b','c','d'],'minProperties':2}", 3, {"{'a':1,'b':2,'c':3,'d':4}", "{'a':1,'b':2,'c':3,'e':4}", "{'d':1,'c':2}", "{'b':1}"}}, {"{'dependencies':{'a':{'required':['x']},'b':['y','z'],'c':{'maximum':$0,'properties':{'v':{'maximum':$0}}},'d':['a']}}", 3, {"{'b':1}", "{'c':1,'v':$1}", "{'d':1,'a':1,'x':1}", "{'b':1,'y':2,'z':3,'a':4}", "{'c':2}", "{'b':1,'z':2}", "{'d':1}"}},
  {"{'allOf':[{},{'type':'integer'},{'maximum':$0},{'not':{'enum':[7]}}]}", 7, {"$1"}}, {"{'anyOf':[{'type':'string'},{'enum':[null]},{'enum':[$0]},{'minItems':1,'type':'array'}]}", 7, {"$1", "'s'", "[]", "[1]", "null"}}, {"{'oneOf':[{'type':'string'},{'enum':[$0,'s',4]},{'enum':[4,$0]},{'type':'null'}]}", 7, {"$1", "'s'", "4", "null"}},
  {"{'enum':[1,'a',null,[],{},$0,[1,2,3],{'a':1,'b':2,'c':3}]}", 7, {"$1", "[1,2,$1]", "{'c':3,'a':1,'b':$1}", "{'a':1,'c':3}", "false", "[1,2,3,4]", "1.0"}}, {"{'enum':['a string that is longer than thirty-two bytes','x']}", 7, {"'a string that is longer than thirty-two bytes'", "'a string that is longer than thirty-two byteS'", "'a string that is longer than thirty-two'"}},
  {"{'properties':{'a member name that is longer than thirty-two bytes':{'maximum':$0}},'required':['a member name that is longer than thirty-two bytes']}", 3, {"{'a member name that is longer than thirty-two bytes':$1}", "{'a member name that is longer than thirty-two bytez':1}"}}, {"{'pattern':'^a[a-z ]+bytes$','minLength':40}", 7, {"'a string that is longer than thirty-two bytes'", "'a string that is Longer than thirty-two bytes'"}},
  {"{'minLength':5,'maxLength':300}", 7, {"'abcd'", "'abcde'", "'\xc3\xa9\xc3\xa9\xc3\xa9'"}}, {"{'propertyNames':{'pattern':'^[a-c]','maxLength':3}}", 1, {"{'a':1,'bcd':2,'cc':3}", "{'a':1,'b':2,'d':3}", "{'a':1,'abcd':2,'b':3}"}}, {"{'if':{'properties':{'a':{'maximum':$0}},'required':['a']},'then':{'required':['b']},'else':{'maxProperties':1}}", 1, {"{'a':$1,'c':1}", "{'a':$1,'b':1}", "{'b':1}", "{'x':1,'y':2}"}},
  {"{'items':{'items':{'items':{'maximum':$0}}}}", 7, {"[[[1,2],[3]],[[4],[5,$1]]]", "[[],[[]],[[$1]]]"}}, {"{'patternProperties':{'^x':{'items':[{'type':'integer'},{'type':'string'}]}},'maxProperties':3}", 7, {"{'x1':[1,'s'],'x2':[1,2]}", "{'y':[1,2],'x':[$0]}", "{'x':1,'y':2,'z':3,'w':4}"}},
  {"{'multipleOf':7}", 3, {"14.0", "$0", "'14'", "15.0"}}, {"{'minimum':$0,'maximum':100}", 7, {"'50'", "$1", "99.5", "100.5", "true"}},
};
enum { NTPL = sizeof TPL / sizeof *TPL };
#ifdef VS_THOROUGH
static bool heavy(uint64_t, uint64_t, uint64_t) { return false; }
#else // formats compile their regular expressions at every validation: fewer contexts in the quick tier
static bool heavy(uint64_t t, uint64_t dr, uint64_t w) { return strncmp(TPL[t].s, "{'format'", 9) == 0 && w && (dr || (w != 4 && w != 8)); }
#endif
static SchemaParser::Version gver(uint64_t v) { return v == 0 ? D7 : v == 1 ? D4 : D3; }
struct Gen { J s, x; SchemaParser::Version v; std::string path; bool conj; uint64_t inst = 0; }; // path: JSON Pointer of the inner instance
static bool has(const char *s, char c) { for (; *s; ++s) if (*s == '$' && s[1] == c) return true; return false; }
static uint64_t tplInst(const Tpl &t) { uint64_t n = 0; while (n < 8 && t.x[n]) ++n; return n; }
static bool tpl(Gen &g, uint64_t t, uint64_t dr, const char *pre = "") {
  if (!(TPL[t].drafts >> dr & 1)) return false; std::string p(pre); JV a; uint64_t n = tplInst(TPL[t]), k = vs_choice((p + "inst").c_str(), n);
  static const char *N[] = {"v0", "v1", "v2"}; for (int i = 0; i < 3; ++i) { bool used = has(TPL[t].s, '0' + i) || has(TPL[t].x[k], '0' + i); a.push_back(used ? ji((int64_t)vs_sym((p + N[i]).c_str(), 8)) : jn()); }
  g.s = P(TPL[t].s, a); g.x = P(TPL[t].x[k], a); g.v = gver(dr); g.path = ""; g.conj = true; g.inst = k; return true;
}
enum { NWRAP = 21 };
static bool wrap0(Gen &g, uint64_t w) { // put the schema and the instance in a context; false if the draft has none such
  J s = g.s, x = g.x; bool d7 = g.v == D7, d3 = g.v == D3; J no = P("{'enum':[]}");
  switch (w) {
  case 0: return true;
  case 1: g.s = jo({{"allOf", ja({jo(), s})}}); return true;
  case 2: g.s = jo({{"anyOf", ja({no, s})}}); g.conj = false; return true;
  case 3: g.s = jo({{"oneOf", ja({s, no})}}); g.conj = false; return true;
  case 4: g.s = jo({{"not", s}}); g.conj = false; return true;
  case 5: if (!d7) return false; g.s = jo({{"if", s}, {"then", jb(false)}}); g.conj = false; return true;
  case 6: if (!d7) return false; g.s = jo({{"if", jo()}, {"then", s}}); return true;
  case 7: g.s = jo({{"properties", jo({{"k", s}})}}); g.x = jo({{"k", x}, {"z", ji(1)}}); g.path = "/k" + g.path; return true;
  case 8: g.s = jo({{"items", s}}); g.x = ja({x}); g.path = "/0" + g.path; return true;
  case 9: g.s = jo({{"items", ja({jo(), s})}}); g.x = ja({jn(), x}); g.path = "/1" + g.path; return true;
  case 10: g.s = jo({{"properties", P("{'z':{}}")}, {"additionalProperties", s}}); if (g.s.o[1].second.k == J::Bool) return false; g.x = jo({{"z", ji(1)}, {"a/b", x}}); g.path = "/a~1b" + g.path; return true;
  case 11: g.s = jo({{"patternProperties", jo({{"^k", s}})}}); g.x = jo({{"k~", x}, {"z", ji(1)}}); g.path = "/k~0" + g.path; g.conj = false; return true;
  case 12: g.s = jo({{"items", ja({jo()})}, {"additionalItems", s}}); if (s.k == J::Bool) return false; g.x = ja({jn(), x}); g.path = "/1" + g.path; return true;
  case 13: if (!d7) return false; g.s = jo({{"contains", s}}); g.x = ja({x}); g.conj = false; return true;
  case 14: g.s = jo({{"dependencies", jo({{"a", s}})}}); return true;
  case 15: g.s = jo({{"properties", P("{'k':{'$ref':'#/definitions/d'}}")}, {"definitions", jo({{"d", s}})}}); g.x = jo({{"k", x}}); g.path = "/k" + g.path; return true;
  case 16: if (!d3) return false; g.s = jo({{"extends", s}}); return true;
  case 17: if (!d3) return false; g.s = jo({{"type", ja({s, js("null")})}}); g.conj = false; return true;
  case 18: g.s = jo({{"not", jo({{"not", s}})}}); g.conj = false; return true;
  case 19: if (!d7) return false; g.s = jo({{"if", no}, {"else", s}}); return true;
  default: g.s = jo({{"oneOf", ja({s, jo()})}}); g.conj = false; return true;
  }
}
static bool wrap(Gen &g, uint64_t w) { // '#/definitions/...' stays at the root when another context is put around it
  J defs; bool had = false; if (g.s.k == J::Obj && g.s.o.size() == 2 && g.s.o[1].first == "definitions") { defs = g.s.o[1].second; had = true; if (w == 15) return false; g.s.o.pop_back(); }
  if (!wrap0(g, w)) return false; if (had) g.s.o.push_back({"definitions", defs}); return true;
}

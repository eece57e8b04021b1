#include "gen.h"
//@ bounds 83 schema templates covering every keyword of Drafts 3, 4 and 7, each with up to 5 instances with symbolic 8-bit leaves, at the root and nested in each of 21 contexts (thorough: in two contexts, every pair)
//@ bounds user-defined (poly) constraints; sequences of up to 5 pushes and pops on a results object
//@ outside deeper contexts
static void both(const Gen &g) {
  Schema s; parseInto(s, g.s, g.v); Doc d(g.x); RA a = d.ad(); Validator v1, v2; ValidationResults r; bool x = v1.validate(s, a, nullptr), y = v2.validate(s, a, &r); vs_observe("x", x); vs_observe("y", y); vs_reach(x ? "in" : "out");
  vs_assert(x == y, "verdict depends on error collection"); vs_assert(!y || r.numErrors() == 0, "errors left for a valid instance"); vs_assert(y || r.numErrors() > 0, "no error for an invalid instance");
  size_t n = 0; for (auto &e : r) { vs_assert(!e.description.empty(), "error without a description"); ++n; } vs_assert(n == r.numErrors(), "number of errors");
}
//@ entry keywords shards=83 reach=in,out cost=9
VS_ENTRY(keywords) { uint64_t t = vs_shard_choice("tpl", NTPL), dr = vs_choice("draft", 3); Gen g; if (!tpl(g, t, dr)) return; uint64_t w = vs_choice("wrap", NWRAP); if (heavy(t, dr, w) || !wrap(g, w)) return; both(g); }
//@ entry twice shards=83 reach=in,out cost=9 tier=thorough
VS_ENTRY(twice) { uint64_t t = vs_shard_choice("tpl", NTPL), dr = vs_choice("draft", 3); Gen g; if (!tpl(g, t, dr)) return; if (!wrap(g, 1 + vs_choice("wrap", NWRAP - 1))) return; if (!wrap(g, 1 + vs_choice("wrap2", NWRAP - 1))) return; both(g); }
//@ entry quicktwice shards=21 reach=in,out cost=9 tier=quick
VS_ENTRY(quicktwice) { // two contexts around the templates that fail in unusual ways
  static const char *S[] = {"{'enum':[$0]}", "{'type':[{'type':'string'},{'enum':[$0]}]}", "{'not':{'not':{'enum':[$0]}}}", "{'properties':{'a':{'enum':[$0]}},'additionalProperties':false}", "{'items':[{'enum':[$0]}],'additionalItems':false}"}; static const char *X[] = {"$1", "$1", "$1", "{'a':$1}", "[$1,1]"};
  uint64_t w2 = vs_shard_choice("wrap2", NWRAP), t = vs_choice("tpl", 6); Gen g; g.conj = true; JV a{ji((int64_t)vs_sym("v0", 8)), ji((int64_t)vs_sym("v1", 8))}; g.v = t == 1 ? D3 : D7; if (t < 5) { g.s = P(S[t], a); g.x = P(X[t], a); } else { g.s = jb(false); g.x = a[0]; }
  if (!wrap(g, 1 + vs_choice("wrap", NWRAP - 1)) || !wrap(g, w2)) return; both(g);
}
//@ entry queue shards=6 reach=pop
VS_ENTRY(queue) { // order of errors, and one pop removes one error
  ValidationResults r; uint64_t head = 0, tail = 0; static const char *D[] = {"e0", "e1", "e2", "e3", "e4", "e5"};
  for (int i = 0; i < 6; ++i) {
    uint64_t op = i ? vs_choice("op", 3) : vs_shard_choice("op0", 3);
    if (op == 0) { ValidationResults::Path p; for (uint64_t k = 0; k < tail; ++k) p.push_back({ValidationResults::kArray, "0"}); r.pushError(p, D[tail++]); }
    else if (op == 1) { ValidationResults::Error e; e.description = D[tail]; e.jsonPointer = "/p"; r.pushError(e); ++tail; }
    else { ValidationResults::Error e; e.description = "untouched"; bool ok = r.popError(e); vs_assert(ok == (head < tail), "popError result"); if (ok) { vs_reach("pop"); vs_assert(e.description == D[head], "order of errors"); ++head; } else vs_assert(e.description == "untouched", "popError on empty"); }
    vs_assert(r.numErrors() == tail - head, "numErrors"); uint64_t k = head; for (auto &e : r) { vs_assert(e.description == D[k], "iteration order"); ++k; }
  }
}

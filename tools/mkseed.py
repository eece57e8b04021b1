#!/usr/bin/env python3
"""Build seeded/<id>/ from a table of planted changes (usage: mkseed.py TABLE.py [ID...]).
TABLE.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo=C++ body of main)].
Each change is confirmed in a scratch copy: it applies, its demo passes without and fails with it."""
import sys, os, subprocess, json, shutil, runpy
T = '/tmp/mkseed_wt'
HEAD = r'''#define VALIJSON_USE_EXCEPTIONS 1
#include <cstdio>
#include <cstdlib>
#include <string>
#include <rapidjson/document.h>
#include <valijson/adapters/rapidjson_adapter.hpp>
#include <valijson/schema.hpp>
#include <valijson/schema_parser.hpp>
#include <valijson/validation_results.hpp>
#include <valijson/validator.hpp>
using namespace valijson; typedef adapters::RapidJsonAdapter RA;
static const SchemaParser::Version D3 = SchemaParser::kDraft3, D4 = SchemaParser::kDraft4, D7 = SchemaParser::kDraft7;
static rapidjson::Document js(const std::string &s) { rapidjson::Document d; d.Parse<rapidjson::kParseFullPrecisionFlag>(s.data(), s.size()); if (d.HasParseError()) { std::printf("bad JSON %s\n", s.c_str()); std::exit(3); } return d; }
static bool accepts(const std::string &schema, const std::string &inst, SchemaParser::Version v = D7, Validator::TypeCheckingMode m = Validator::kStrongTypes, ValidationResults *r = nullptr) {
  auto sd = js(schema), id = js(inst); Schema s; SchemaParser p(v); RA a(sd); p.populateSchema(a, s); Validator val(m); RA b(id); return val.validate(s, b, r);
}
static int bad = 0;
#define CHECK(x) do { if (!(x)) { std::printf("FAILED: %s\n", #x); bad = 1; } } while (0)
'''
SH = '''#!/bin/bash
# run with cwd /repo; exit 0 when the property holds for the inputs below
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 %s-Iinclude "$D/demo.cpp" -o "$T/demo" || exit 3
"$T/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
seeds = runpy.run_path(sys.argv[1])['SEEDS']; want = sys.argv[2:]
for s in seeds:
    if want and s['id'] not in want: continue
    shutil.rmtree(T, ignore_errors=True); sh(f'git -C /repo worktree prune'); os.makedirs(T); sh(f'cp -a /repo/include /repo/.git {T}/')
    for f, old, new in s['edits']:
        p = f'{T}/include/valijson/{f}'; t = open(p).read()
        if t.count(old) != 1: print(s['id'], 'EDIT matches', t.count(old), 'times:', old[:60]); break
        open(p, 'w').write(t.replace(old, new))
        if 'sub' in s: t = open(p).read(); open(p, 'w').write(t.replace(s['sub'][1], s['sub'][2]))
    else:
        d = f"/verif/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
        diff = sh(f'git -C {T} diff -- include').stdout; open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.cpp', 'w').write(s.get('head', HEAD) + 'int main() {\n' + s['demo'].strip('\n') + '\n  return bad;\n}\n')
        open(d + '/demo.sh', 'w').write(SH % s.get('flags', '')); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        a = sh(f'cd /repo && bash {d}/demo.sh'); b = sh(f'cd {T} && bash {d}/demo.sh')
        print(s['id'], 'clean', a.returncode, 'patched', b.returncode, 'OK' if a.returncode == 0 and b.returncode not in (0, 3) else 'BAD ' + a.stdout[-600:] + b.stdout[-600:], flush=True)
shutil.rmtree(T, ignore_errors=True)

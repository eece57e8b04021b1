#!/usr/bin/env python3
"""Decide one property: python3 check.py ID [--tier quick|thorough] [--keep]

Compiles harness/ID*.cpp against /repo's current headers, to LLVM IR (for the
symbolic executor) and natively with ASan/UBSan (to replay counterexamples and
to validate sampled paths), runs every entry, and writes evidence/ID.json.
"""
import sys, os, re, json, time, subprocess, glob, shutil, fcntl, hashlib, random
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
ENG = V + '/engine'
B = V + '/build'
SAN = 'signed-integer-overflow,integer-divide-by-zero,float-cast-overflow,shift,return,unreachable'
COMMON = ['-std=c++17', '-I' + REPO + '/include', '-I' + ENG, '-I' + V + '/harness', '-DVALIJSON_USE_EXCEPTIONS=1', '-w']
IRF = ['-O1', '-fno-pic', '-fno-pie', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-emit-llvm', '-fsanitize=' + SAN, '-fsanitize-trap=all', '-include', ENG + '/prelude.h', '-c']
NATF = ['-O0', '-g1', '-DVS_NATIVE', '-fsanitize=address,' + SAN, '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
NCPU = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 8))

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, **kw)

def newer(out, deps):
    return os.path.exists(out) and all(os.path.getmtime(out) >= os.path.getmtime(d) for d in deps)

def build_engine():
    os.makedirs(B + '/engine', exist_ok=True)
    with open(B + '/engine/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        srcs = [f for f in glob.glob(ENG + '/*') if os.path.basename(f) in ('expr.cpp', 'expr.h', 'solver.cpp', 'solver.h', 'mem.h', 'vsym.cpp', 'builtins.inc', 'build.sh')]
        jobs = []
        if not newer(B + '/engine/vsym', srcs):
            jobs.append(subprocess.Popen([ENG + '/build.sh', B + '/engine'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        if not newer(B + '/engine/model.bc', [ENG + '/model.cpp']):
            jobs.append(subprocess.Popen(['clang++-18', '-std=c++17', '-O1', '-fno-access-control', '-fno-vectorize', '-fno-slp-vectorize', '-fno-builtin', '-w', '-emit-llvm', '-c', ENG + '/model.cpp', '-o', B + '/engine/model.bc'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        for j in jobs:
            o, _ = j.communicate()
            if j.returncode:
                print(o); raise SystemExit('engine build failed')

def parse_annotations(path):
    ents, info = [], {'bounds': [], 'outside': [], 'stub': [], 'assume': []}
    for line in open(path):
        m = re.match(r'\s*//@\s+(\w+)\s+(.*)', line)
        if not m:
            continue
        k, rest = m.group(1), m.group(2).strip()
        if k == 'entry':
            p = rest.split(); e = {'entry': p[0], 'shards': 1, 'tier': 'both', 'reach': [], 'time': 0, 'insts': 400000000}
            for kv in p[1:]:
                a, b = kv.split('=', 1)
                e[a] = b.split(',') if a == 'reach' else (int(b) if b.isdigit() else b)
            ents.append(e)
        elif k in info:
            info[k].append(rest)
    return ents, info

def main():
    args = sys.argv[1:]; tier = os.environ.get('VERIF_TIER', 'quick'); pid = None; keep = False; only = None; verbose = False
    while args:
        a = args.pop(0)
        if a == '--tier': tier = args.pop(0)
        elif a == '--setup': build_engine(); return 0
        elif a == '--keep': keep = True
        elif a == '--only': only = args.pop(0)
        elif a == '-v': verbose = True
        else: pid = a
    seed = int(os.environ.get('VERIF_SEED', '1')); t0 = time.time()
    budget = 420 if tier == 'quick' else 3 * 3600
    work = f'{B}/run/{pid}-{tier}'; shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    os.makedirs(V + '/evidence', exist_ok=True)
    files = sorted(glob.glob(f'{V}/harness/{pid}.cpp') + glob.glob(f'{V}/harness/{pid}_*.cpp'))
    if not files: raise SystemExit('no harness for ' + str(pid))
    defs = ['-DVS_THOROUGH=1'] if tier == 'thorough' else []
    info = {'bounds': [], 'outside': [], 'stub': [], 'assume': []}; ents = []
    for f in files:
        es, inf = parse_annotations(f)
        for e in es:
            if e['tier'] in ('both', tier) and (not only or only in e['entry']):
                e['file'] = f; ents.append(e)
        for k in info: info[k] += inf[k]
    used = sorted({e['file'] for e in ents})
    # ---- build
    ex = ThreadPoolExecutor(NCPU + 2); st = {}
    def comp(f, native):
        b = os.path.basename(f)[:-4]
        fdefs = list(defs); src = open(f).read()
        for m in re.finditer(r'//@ (flags|irflags|natflags) (.*)', src):
            if m.group(1) != ('irflags' if native else 'natflags'): fdefs = m.group(2).replace('$V', V).split() + fdefs
        out = f'{work}/{b}' + ('.native' if native else '.bc')
        libs = []
        for m in re.finditer(r'//@ libs (.*)', src): libs += m.group(1).split()
        if native:
            no = f'{work}/native_rt.o'
            c = ['clang++-18'] + COMMON + NATF + fdefs + [f, '-c', '-o', out + '.o']
        else:
            c = ['clang++-18'] + COMMON + IRF + fdefs + [f, '-o', out]
        return sh(c), out, libs
    fe = ex.submit(build_engine)
    frt = ex.submit(sh, ['clang++-18'] + COMMON + NATF + ['-c', ENG + '/native.cpp', '-o', f'{work}/native_rt.o'])
    futs = {(f, n): ex.submit(comp, f, n) for f in used for n in (False, True)}
    fe.result()
    if frt.result().returncode: print(frt.result().stderr); raise SystemExit('native runtime build failed')
    for (f, n), fu in futs.items():
        r, out, libs = fu.result()
        if r.returncode:
            print(f'BUILD-FAILED {os.path.basename(f)} ({"native" if n else "IR"}): the headers in {REPO} do not compile with the harness\n' + r.stderr[-3000:]); return 2
        if n:
            l = sh(['clang++-18', '-fsanitize=address,undefined', out + '.o', f'{work}/native_rt.o', '-o', out] + libs)
            if l.returncode: print(l.stderr[-3000:]); return 2
    tb = time.time() - t0
    # ---- explore
    jobs = []
    for e in ents:
        for i in range(e['shards']): jobs.append((e, i))
    jobs.sort(key=lambda j: -j[0].get('cost', 1) if isinstance(j[0].get('cost', 1), int) else 0)
    def explore(j):
        e, i = j; b = os.path.basename(e['file'])[:-4]; out = f'{work}/{b}.{e["entry"]}.{i}.json'
        left = budget - (time.time() - t0)
        tmax = e['time'] or (300 if tier == 'quick' else 7200); tmax = max(5, min(tmax, left))
        c = [B + '/engine/vsym', f'{work}/{b}.bc', B + '/engine/model.bc', '--entry', e['entry'], '--out', out, '--max-time', str(tmax), '--max-insts', str(e['insts']), '--shard', f'{i}/{e["shards"]}', '--seed', str(seed), '--samples', str(max(4, 48 // e['shards'])), '--z3-timeout', '60000' if tier == 'quick' else '300000']
        try:
            r = sh(c, timeout=tmax + 120)
        except subprocess.TimeoutExpired:
            return e, i, None, 'timeout'
        if r.returncode or not os.path.exists(out): return e, i, None, r.stderr[-1500:] + f' rc={r.returncode}'
        return e, i, json.load(open(out)), r.stderr
    rex = ThreadPoolExecutor(NCPU)
    res = list(rex.map(explore, jobs))
    # ---- merge
    tot = {}; viol, known, samples, unsup, funcs, lines = [], [], [], {}, set(), {}
    per = {}; errors = []; incomplete = []
    for e, i, d, err in res:
        if d is None:
            errors.append(f'{e["entry"]}/{i}: {err}'); incomplete.append(f'{e["entry"]} shard {i}: engine ended early'); continue
        if verbose and err.strip(): print(err[:2000])
        p = per.setdefault(e['entry'], {'paths': 0, 'states': 0, 'forks': 0, 'wall': 0.0, 'reached': set(), 'asserts': {}, 'complete': True})
        for k in ('paths', 'states', 'forks'): p[k] += d[k]
        p['wall'] = max(p['wall'], d['wall']); p['reached'] |= set(d['reached'])
        for a, n in d['assert_ids'].items(): p['asserts'][a] = p['asserts'].get(a, 0) + n
        if not d['complete'] and not d['violations']:
            p['complete'] = False; incomplete.append(f'{e["entry"]} shard {i}: {d["abort"] or "solver/unsupported"} pending={d["pending"]} {" ".join(list(d["unsupported"])[:3])}')
        for k, v in d.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool) and k not in ('shard',): tot[k] = max(tot.get(k, 0), v) if k in ('z3_max', 'rss_mb', 'max_depth') else tot.get(k, 0) + v
        for x in d['violations']: x['file'] = e['file']; viol.append(x)
        for x in d['known']: x['file'] = e['file']; known.append(x)
        for x in d['samples']: x['file'] = e['file']; samples.append(x)
        for k, v in d['unsupported'].items(): unsup[k] = unsup.get(k, 0) + v
        funcs |= set(d['functions'])
        for f, ls in d['lines'].items(): lines.setdefault(f, set()).update(ls)
    # ---- native replay
    def native(f): return f'{work}/{os.path.basename(f)[:-4]}.native'
    def replay(x, name):
        rp = f'{V}/evidence/replay/{pid}/{name}.txt'; os.makedirs(os.path.dirname(rp), exist_ok=True)
        open(rp, 'w').write(f'# harness {os.path.basename(x["file"])} kind {x["kind"]} id {x["id"]} {x["msg"]}\n# at {x["where"]}\n' + x['replay'])
        r = sh([native(x['file']), rp], timeout=200); return rp, r
    shutil.rmtree(f'{V}/evidence/replay/{pid}', ignore_errors=True)
    try: kf = json.load(open(V + '/known_findings.json'))
    except FileNotFoundError: kf = {'findings': []}
    listed = {k['id']: k for k in kf.get('findings', []) if k['property'] == pid}
    rc = 0; confirmed = []; unconfirmed = []; nv = 0; seen = set()
    for n, x in enumerate(viol):
        key = (x['kind'], x['id'], x['where'].split(' ')[0] if x['kind'] != 'assert' else '')
        if key in seen and nv: continue
        rp, r = replay(x, f'{n}')
        m = re.search(r'rc (\d+)', r.stdout); code = int(m.group(1)) if m else -1
        ok = code not in (0, 77, 78, -1, 3)
        if not ok and x['kind'] == 'uninit' and code == 0:
            u = f'{work}/{os.path.basename(x["file"])[:-4]}.plain'
            if not os.path.exists(u): sh(['clang++-18'] + COMMON + ['-O0', '-g1', '-DVS_NATIVE'] + defs + [x['file'], ENG + '/native.cpp', '-o', u])
            q = sh(['valgrind', '-q', '--trace-children=yes', '--error-exitcode=9', u, rp], timeout=300)
            ok = 'uninitialised' in q.stderr; r = q
        if ok:
            seen.add(key); confirmed.append(x); nv += 1; rc = 1
            print(f'violation: {x["kind"]} {x["id"]}: {x["msg"]}\n  at {x["where"]}')
            for l in x['replay'].splitlines():
                if l.startswith(('in ', 'obs ')): print('   ', l)
            tail = [l for l in (r.stdout + r.stderr).splitlines() if re.search(r'ASSERT|UNCAUGHT|ERROR|runtime error|FREE|uninit', l)][:3]
            print('  native replay: ' + ' | '.join(tail) + f' (rc {code})')
            print(f'VIOLATION property={pid} replay={os.path.relpath(rp, V)}')
        else:
            unconfirmed.append(x); print(f'UNCONFIRMED {x["kind"]} {x["id"]} {x["msg"]} at {x["where"]} (native rc {code}); replay {rp}')
    kseen = set()
    for n, x in enumerate(known):
        fid = x['id']
        if fid in kseen: continue
        kseen.add(fid); rp, r = replay(x, f'known-{fid}')
        m = re.search(r'rc (\d+)', r.stdout); code = int(m.group(1)) if m else -1
        if fid in listed:
            if code not in (0, 77, 78): print(f'KNOWN-FINDING: property={pid} {fid}: {listed[fid]["what"]}')
            else: print(f'UNCONFIRMED known finding {fid}')
        elif code not in (0, 77, 78, -1):
            print(f'violation: {fid} {x["msg"]}\nVIOLATION property={pid} replay={os.path.relpath(rp, V)}'); rc = 1; nv += 1
    # ---- sampled complete paths must give the same observations natively
    rnd = random.Random(seed); rnd.shuffle(samples); pick = samples[:240]; validated = 0; diverged = 0
    byf = {}
    for s in pick: byf.setdefault(s['file'], []).append(s)
    def batch(arg):
        f, ss, k = arg; p = f'{work}/batch{k}.txt'; open(p, 'w').write(''.join(s['replay'] for s in ss))
        return ss, sh([native(f), p, 'batch'], timeout=600)
    chunks = []
    for f, ss in byf.items():
        for i in range(0, len(ss), 30): chunks.append((f, ss[i:i + 30], len(chunks)))
    divs = []
    for ss, r in rex.map(batch, chunks):
        runs = re.split(r'^run \d+\n', r.stdout, flags=re.M)[1:]
        for s, out in zip(ss, runs):
            want = re.findall(r'^obs (\S+) (\S+)', s['replay'], re.M); got = re.findall(r'^obs (\S+) (\S+)', out, re.M)
            code = int(re.search(r'rc (\d+)', out).group(1))
            if want == got and code in (0, 43): validated += 1  # 43: a recorded known finding, reported above
            else: diverged += 1; divs.append((s, out, want, got, code))
    for s, out, want, got, code in divs[:3]:
        if code in (42, 44, 45, 46, 47) or code >= 128:
            rp, r = replay(s, f'path-{diverged}'); print(f'violation: native run of an explored path fails (rc {code}) {out[-300:]}\nVIOLATION property={pid} replay={os.path.relpath(rp, V)}'); rc = 1; nv += 1
        else: print(f'DIVERGENCE engine {want} native {got} rc {code} inputs {[l for l in s["replay"].splitlines() if l.startswith("in ")]}')
    div_model = [d for d in divs if not (d[4] in (42, 44, 45, 46, 47) or d[4] >= 128)]
    # ---- vacuity
    missing = []
    for e in ents:
        for lab in e['reach']:
            if lab not in per.get(e['entry'], {'reached': set()})['reached']: missing.append(f'{e["entry"]}:{lab}')
    wall = time.time() - t0
    def show(s): return {'entry': s['replay'].splitlines()[0].split()[1], 'inputs': [l[3:] for l in s['replay'].splitlines() if l.startswith('in ')][:40], 'observed': [l[4:] for l in s['replay'].splitlines() if l.startswith('obs ')][:40]}
    cov = {'states': tot.get('states', 0), 'transitions': tot.get('forks', 0) + tot.get('paths', 0), 'traces_validated_against_impl': validated, 'samples': [show(s) for s in pick[:6]],
           'exhaustive': not incomplete and not viol, 'incomplete': incomplete[:20], 'paths': tot.get('paths', 0), 'instructions': tot.get('insts', 0), 'forks': tot.get('forks', 0),
           'assertions_checked': tot.get('asserts_checked', 0), 'assertions_decided_by_path_condition': tot.get('asserts_const', 0), 'assertion_solver_queries': tot.get('z3_assert_queries', 0),
           'branch_queries': tot.get('branch_queries', 0), 'decided_on_byte_domains': tot.get('domain_decided', 0), 'query_cache_hits': tot.get('cache_hits', 0), 'z3_queries': tot.get('z3_queries', 0), 'z3_sat': tot.get('z3_sat', 0), 'z3_unsat': tot.get('z3_unsat', 0), 'z3_unknown': tot.get('z3_unknown', 0), 'z3_fp_queries': tot.get('z3_fp_queries', 0), 'z3_seconds': round(tot.get('z3_time', 0), 3), 'z3_slowest': round(tot.get('z3_max', 0), 3),
           'symbolic_numbers_in_messages_stubbed': tot.get('fmt_stub', 0), 'unsupported': unsup, 'engine_native_divergences': len(div_model),
           'entries': {k: {'paths': v['paths'], 'forks': v['forks'], 'wall_s': round(v['wall'], 2), 'assertions': v['asserts'], 'reached': sorted(v['reached']), 'complete': v['complete']} for k, v in per.items()},
           'functions_encoded': sorted(funcs), 'repo_lines_encoded': {os.path.relpath(f, REPO): len(l) for f, l in sorted(lines.items())}, 'bounds': info['bounds'], 'outside_bounds': info['outside'], 'build_s': round(tb, 1), 'peak_rss_mb': tot.get('rss_mb', 0)}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'assumptions': info['assume'] + ['stub: ' + s for s in info['stub']] + ['model runtime (engine/model.cpp) stands for libstdc++.so/libc; clang -O1 IR semantics; Z3; sampled paths are replayed natively'], 'wall_s': round(wall, 2), 'violations': nv}
    json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    for l in incomplete[:10]: print('INCOMPLETE ' + l)
    for l in errors[:5]: print('ENGINE-ERROR ' + l)
    if unsup: print('UNSUPPORTED ' + json.dumps(unsup)[:600])
    print(f'{pid} {tier}: entries={len(ents)} paths={tot.get("paths",0)} insts={tot.get("insts",0)} asserts={tot.get("asserts_checked",0)} z3={tot.get("z3_queries",0)} ({tot.get("z3_time",0):.1f}s, max {tot.get("z3_max",0):.2f}s) domain={tot.get("domain_decided",0)} validated={validated}/{len(pick)} functions={len(funcs)} build={tb:.1f}s wall={wall:.1f}s exhaustive={cov["exhaustive"]}')
    if verbose:
        for k, v in per.items(): print('  ', k, 'paths', v['paths'], 'wall', round(v['wall'], 1), 'complete', v['complete'], 'reached', sorted(v['reached']))
    if not keep: shutil.rmtree(work, ignore_errors=True)
    if rc: return 1
    if missing: print('VACUOUS: never reached ' + ', '.join(missing)); return 2
    if div_model: print('the engine and the native build disagree'); return 2
    if not tot.get('paths'): print('nothing was explored'); return 2
    return 0

if __name__ == '__main__':
    sys.exit(main())

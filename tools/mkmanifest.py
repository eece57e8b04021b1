#!/usr/bin/env python3
# Writes MANIFEST.json from the harnesses present; notes per property below.
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
NA = json.load(open(V + '/tools/not_applicable.json')) if os.path.exists(V + '/tools/not_applicable.json') else {}
checks, na = [], []
for p in props:
    i = p['id']; fs = sorted(glob.glob(f'{V}/harness/{i}.cpp') + glob.glob(f'{V}/harness/{i}_*.cpp'))
    if not fs:
        na.append({'property': i, 'reason': NA.get(i, 'harness not written yet')}); continue
    b, o = [], []
    for f in fs:
        for l in open(f):
            m = re.match(r'\s*//@\s+(bounds|outside)\s+(.*)', l)
            if m: (b if m[1] == 'bounds' else o).append(m[2].strip())
    checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
                   'technique': 'symbolic execution of the LLVM IR of the real headers, assertions discharged by Z3 (bounded); counterexamples replayed natively under ASan/UBSan',
                   'level': 'model_checking',
                   'level_note': 'Every path and every value within the bounds is decided by the solver. Bounds: ' + '; '.join(b) + '. Outside: ' + ('; '.join(o) or 'anything beyond the bounds') + '.'})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks}
m['not_applicable'] = na
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); print(len(checks), 'checks,', len(na), 'not applicable')

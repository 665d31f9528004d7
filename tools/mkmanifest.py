#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the specifications present."""
import glob, json, os, re, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
NA = json.load(open(ROOT + '/tools/not_applicable.json'))
NOTE = json.load(open(ROOT + '/tools/level_notes.json'))
checks = []
na = []
for p in props:
    i = p['id']
    specs = sorted(glob.glob(ROOT + '/specs/%s_*.c' % i))
    if i in NA or not specs:
        na.append({'property': i, 'reason': NA.get(i, 'contracts not written yet')})
        continue
    th = []
    for s in specs:
        out = subprocess.run(['clang-18', '-E', '-P', '-I' + ROOT + '/specs', '-I/repo/src/include', '-I/repo/src/main', s], capture_output=True, text=True).stdout
        th += ['%s:%s' % (os.path.basename(s), h) for h in dict.fromkeys(re.findall(r'\bvp_h__(\w+)\s*\(', out))]
    lv = NOTE.get(i, {})
    checks.append({'property': i, 'quick_cmd': 'python3-vt vcg/run.py %s' % i, 'thorough_cmd': 'python3-vt vcg/run.py %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': 'contract-based deductive verification: verification conditions generated from the LLVM IR of the current /repo sources, discharged by Z3/cvc5',
                   'level': lv.get('level', 'proof'), 'level_note': lv.get('note', 'every obligation unbounded; assumptions and trusted stubs are listed in the evidence'),
                   'theorems': th})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'Specifications in specs/, verification condition generator in vcg/, native replay runtime in native/. See DESIGN.md.'},
          open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

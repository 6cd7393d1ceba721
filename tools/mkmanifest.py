#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the registry of checks built into the engine.
import json, subprocess, os
os.chdir('/verif')
ids = subprocess.run(['bin/vsym', 'list'], capture_output=True, text=True, check=True).stdout.split()
props = [json.loads(l) for l in open('properties.jsonl')]
NA = json.load(open('tools/not_applicable.json')) if os.path.exists('tools/not_applicable.json') else {}
notes = json.load(open('tools/notes.json')) if os.path.exists('tools/notes.json') else {}
checks, na = [], []
default = ("Every obligation is decided by an SMT solver (z3) for all symbolic inputs within the bounds listed in the evidence file; "
           "counterexamples are re-executed concretely and, where no particular schedule is needed, natively on the compiled code before they are reported. "
           "Trusts go/ssa, the engine's instruction semantics (validated by native replay of sampled paths) and the environment models in harness/.")
for p in props:
    i = p['id']
    if i in ids:
        checks.append({'property': i, 'quick_cmd': f'sh check.sh {i} --tier quick', 'thorough_cmd': f'sh check.sh {i} --tier thorough',
                       'technique': 'bounded symbolic execution of the go/ssa form of the real code, SMT (z3)', 'level': 'model_checking',
                       'level_note': notes.get(i, default)})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'sh check.sh --build', 'checks': checks, 'not_applicable': na}, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

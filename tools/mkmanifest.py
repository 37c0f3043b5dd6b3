"""Regenerates /verif/MANIFEST.json from the checks present and tools/notes.json."""
import os, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = json.load(open(os.path.join(V, 'tools', 'notes.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    if os.path.exists(os.path.join(V, 'checks', p + '.py')):
        n = N['checks'][p]
        checks.append(dict(property=p, quick_cmd='python3-vt /verif/run_check.py %s' % p, thorough_cmd='python3-vt /verif/run_check.py %s --thorough' % p,
                           technique=n.get('technique', 'contract-based deductive verification of the LLVM IR of the real code (llvc, z3/cvc5)'), level=n['level'], level_note=n['note']))
    else: na.append(dict(property=p, reason=N['na'].get(p, 'check not built yet')))
m = dict(version=1, setup_cmd='true', hooks=dict(guard='LIBKEEPASS_VERIF', enable='none needed: the checks compile /repo sources unchanged', source_commits=[]), checks=checks, not_applicable=na,
         notes='See DESIGN.md. All checks rebuild from /repo working tree in temporary directories.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

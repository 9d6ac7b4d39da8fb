"""Write MANIFEST.json from the check modules which exist (run: python3 tools/gen_manifest.py)."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    pid = p['id']
    path = os.path.join(HERE, 'kdv', 'checks', pid.lower() + '.py')
    if not os.path.exists(path):
        na.append({'property': pid, 'reason': NA.get(pid, 'check not built yet')})
        continue
    src = open(path).read()
    g = {}
    for name in ('TECHNIQUE', 'LEVEL_NOTE'):
        m = re.search(r'^%s = (\(.*?\)|\'.*?\')$' % name, src, re.S | re.M)
        g[name] = eval(m.group(1)) if m else None
    checks.append({
        'property': pid,
        'quick_cmd': 'python3 run_check.py %s' % pid,
        'thorough_cmd': 'python3 run_check.py %s --thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': g['TECHNIQUE'] or 'property-based testing (Hypothesis) against a reference model of generated files',
        'level': 'exploration',
        'level_note': g['LEVEL_NOTE'] or (
            'Every generated case is compared with an independent model; nothing is shown about cases '
            'outside the generators. Trusts h5py/HDF5, NumPy, pandas, xarray and the file builder in kdv/.'),
    })
doc = {'version': 1,
       'setup_cmd': 'python3 -c "import os; os.makedirs(\'evidence\', exist_ok=True)" && /opt/venv/bin/python -c "import h5py, numpy, xarray, dask"',
       'checks': checks, 'not_applicable': na,
       'notes': 'No hooks in /repo. Every check imports karabo_data from /repo at run time (nothing is built or cached) and takes Hypothesis from the tooling venv.'}
json.dump(doc, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')

"""Writes MANIFEST.json from the properties the harness decides."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'harness'))
src = open(os.path.join(here, 'harness', 'check.py')).read()
ns = {}
exec(src[src.index('AREAS = {'):src.index('def main')], ns)
notes = json.load(open(os.path.join(here, 'tools', 'notes.json')))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
area = {p: a for a, ps in ns['AREAS'].items() for p in ps}
checks, na = [], []
for p in props:
    i = p['id']
    if i in area:
        n = notes[area[i]]
        checks.append({'property': i,
                       'quick_cmd': f'VERIF_TIER=quick /opt/venv/bin/python harness/check.py {i}',
                       'thorough_cmd': f'VERIF_TIER=thorough /opt/venv/bin/python harness/check.py {i}',
                       'evidence_file': f'evidence/{i}.json', 'technique': n['technique'], 'level': 'model_checking',
                       'level_note': n['note']})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')

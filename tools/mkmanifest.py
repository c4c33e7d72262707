"""Writes /verif/MANIFEST.json from kv/catalogue.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from kv.catalogue import ENTRY
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python /verif/run.py setup', 'checks': [], 'not_applicable': [], 'notes': 'Own deductive verifier for the Python/numpy subset kinisi is written in (kv/), see DESIGN.md.'}
for p in sorted(ENTRY):
    e = ENTRY[p]
    m['checks'].append({'property': p, 'quick_cmd': f'/opt/venv/bin/python /verif/run.py {p} --tier quick', 'thorough_cmd': f'/opt/venv/bin/python /verif/run.py {p} --tier thorough',
                        'technique': e.get('technique', 'contract-based deductive verification of the real code'), 'level': e['level'], 'level_note': e.get('note') or 'bounded'})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)

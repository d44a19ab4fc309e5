"""Writes MANIFEST.json: every property of properties.jsonl is claimed if contracts/<id>.py exists, else not applicable."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
NA = {}
exec(open(os.path.join(R, 'tools', 'notes.py')).read())
checks, na = [], []
for l in open(os.path.join(R, 'properties.jsonl')):
    p = json.loads(l)['id']
    if os.path.exists(os.path.join(R, 'contracts', p.lower() + '.py')) and p not in NA:
        level, note = NOTES[p]
        checks.append({'property': p, 'quick_cmd': f'/opt/venv/bin/python -m vc.run {p}', 'thorough_cmd': f'/opt/venv/bin/python -m vc.run {p} --tier thorough',
                       'technique': 'contract-based deductive verification: symbolic execution of the repository source against contracts, obligations discharged by z3/cvc5'
                                    + ('' if level == 'proof' else '; bounded contract evaluation where stated'),
                       'level': level, 'level_note': note + ' ' + BASE})
    else: na.append({'property': p, 'reason': NA.get(p, 'contracts not written yet')})
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python -c \"import vc.core, vc.prover\"',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the engine reads the source of /repo on every run. /opt/venv/bin/python is the interpreter of the repository; z3 comes from /opt/veriftools/pyvenv.'},
          open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)

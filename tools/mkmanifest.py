"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NOT_YET = 'the check for this property is not built yet'
TECH = 'bounded stateless model checking: exhaustive decision-tree enumeration of documents/histories, each executed on the real code against a reference model'
NOTE = ('Every case of the stated bounded space is executed on the real code in /repo and compared with an independent reference model; nothing is sampled. '
        'Assurance ends at the bound (size, alphabet, deviation bound in the evidence) and trusts the reference model in /verif/mc.')
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if os.path.isfile(os.path.join(V, 'mc', 'checks', pid.lower() + '.py')):
        cmd = '/opt/venv/bin/python mc/run.py %s --tier %s'
        checks.append({'property': pid, 'quick_cmd': cmd % (pid, 'quick'), 'thorough_cmd': cmd % (pid, 'thorough'), 'evidence_file': 'evidence/%s.json' % pid,
                       'technique': TECH, 'level': 'model_checking', 'level_note': NOTE})
    else:
        na.append({'property': pid, 'reason': NOT_YET})
json.dump({'version': 1, 'setup_cmd': 'test -x /opt/venv/bin/python && mkdir -p evidence', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks are needed: every check observes the public API of the real code. KNOWN_FINDINGS.jsonl lists recorded findings and fixed defects.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from check import CHECKS, TECHNIQUES    # noqa: E402

REASONS = {
    'C31': 'Order of suggestions by numeric similarity score: deciding it means computing the scores of concrete words, '
           'which static analysis of this code does not do (the shape of the search is under C18, C29, C30).',
    'C32': 'Running time; the algorithms of Hunspell this library follows (compounds, MAP substitutions) are exponential '
           'by design, so there is no bound for a static analysis to confirm. Termination is under C03.',
}

props = [json.loads(line) for line in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
na = []
for p in props:
    pid = p['id']
    if pid in CHECKS:
        checks.append({
            'property': pid,
            'quick_cmd': f'python3 check.py {pid}',
            'thorough_cmd': f'python3 check.py {pid}',
            'evidence_file': f'evidence/{pid}.json',
            'technique': TECHNIQUES.get(pid, 'static analysis: guarded value-flow compared with a reference'),
            'level': 'other',
            'level_note': 'Static analysis of the current source, all inputs at once: every obligation is discharged, '
                          'violated, or undecided (then listed in evidence and not claimed). Rests on the modelled '
                          'meaning of Python constructs and library calls, and on the reference written for the property.',
        })
    else:
        na.append({'property': pid, 'reason': REASONS.get(pid, 'Check is not built yet.')})
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa specs check.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Nothing of /repo is imported or run: the checks parse the sources in /repo/spylls (or in the directory '
              'named by VERIF_REPO, used for trying the checks on scratch copies).'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks,', len(na), 'not applicable')

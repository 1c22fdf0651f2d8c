"""
Makes planted bugs: python3 tools/seed.py DEFINITIONS.py [ID...]

Definitions call seed(id, property, file, [(old, new), ...], needs, breaks, demo). The patch is made against /repo HEAD in
a scratch copy, the demonstration is tried on both trees.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, 'seeded')

HEADER = '''import os
import sys
import tempfile

sys.path.insert(0, os.getcwd())

from spylls.hunspell import Dictionary  # noqa: E402


def load(aff, dic, encoding='utf-8'):
    with tempfile.TemporaryDirectory() as d:
        with open(os.path.join(d, 'x.aff'), 'w', encoding=encoding) as f:
            f.write(aff)
        with open(os.path.join(d, 'x.dic'), 'w', encoding=encoding) as f:
            f.write(dic)
        return Dictionary.from_files(os.path.join(d, 'x'))


def expect(what, got, want):
    if got != want:
        print(f'{what}: got {got!r}, must be {want!r}')
        sys.exit(1)


'''

STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV = {**os.environ, 'LC_ALL': 'C.UTF-8', 'PYTHONUTF8': '1', 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1'}


def tests(work):
    """stable tests that fail in the tree"""
    passed = set()
    for s in 'lookup', 'suggest':
        out = os.path.join(work, f'../{s}.txt')
        subprocess.run(['/opt/venv/bin/python', '/opt/vp/run_integrational.py', f'tests/integrational/test_{s}.py', out],
                       cwd=work, env={**ENV, 'PYTHONPATH': work}, capture_output=True)
        passed |= {line.split(' ', 1)[1].strip() for line in open(out)
                   if line.startswith('PASS ')}
    return sorted(t for t in STABLE if t.startswith('integrational.') and t not in passed)


only = sys.argv[2:]
failed = []


def seed(sid, prop, file, changes, needs, breaks, demo):
    if only and sid not in only:
        return
    d = os.path.join(OUT, sid)
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        work = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', work)
        path = os.path.join(work, 'spylls/hunspell', file)
        s = open(path, encoding='utf-8').read()
        for old, new in changes:
            if s.count(old) != 1:
                failed.append((sid, f'{s.count(old)} places for {old!r}'))
                return
            s = s.replace(old, new)
        open(path, 'w', encoding='utf-8').write(s)
        diff = subprocess.run(['git', '-C', work, 'diff'], capture_output=True, text=True).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(HEADER + demo.strip() + '\n')
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'),
                  indent=1)
        for where, want in (('/repo', True), (work, False)):
            try:
                r = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=where, capture_output=True, text=True,
                                   timeout=60)
                ok = (r.returncode == 0) == want
                out = (r.stdout + r.stderr)[-300:]
            except subprocess.TimeoutExpired:
                ok, out = not want, 'timeout'
            if not ok:
                failed.append((sid, f'demo in {where}: {out}'))
        bad = tests(work)
        if bad:
            failed.append((sid, f'tests notice: {bad[:5]}'))
            shutil.rmtree(d)
        chk = subprocess.run([sys.executable, os.path.join(ROOT, 'check.py'), prop], cwd=ROOT, capture_output=True,
                             text=True, env={**os.environ, 'VERIF_REPO': work})
        print(sid, prop, {0: 'MISSED', 1: 'caught'}.get(chk.returncode, 'ERROR'),
              '' if chk.returncode == 1 else chk.stdout[-600:])
    finally:
        shutil.rmtree(tmp)


exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), {'seed': seed})
for f in failed:
    print('FAILED', *f)

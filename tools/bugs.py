"""
Development tool: applies wrong edits (trials/bugs/*.py) to a scratch copy one by one and shows which of them the check of
the named property doesn't object to. Not used by any check.

    python3 tools/bugs.py [FILE[:NAME]...] [-t] [-v]

-t: also runs the repository tests on the edited copy
"""
import argparse
import importlib.util
import glob
import json
import os
import shutil
import subprocess
import sys
from collections import Counter
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from trials import prepare  # noqa: E402  # pylint: disable=wrong-import-position


def load():
    res = []
    for path in sorted(glob.glob(ROOT + '/trials/bugs/*.py')):
        spec = importlib.util.spec_from_file_location('t', path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for prop, name, file, pairs in m.BUGS:
            res.append((prop, os.path.basename(path)[:-3], name, file, pairs))
    return res


def check(prop, d):
    env = {**os.environ, 'VERIF_REPO': d + '/repo', 'VERIF_EVIDENCE': d + '/evidence', 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'}
    return subprocess.run([sys.executable, ROOT + '/check.py', prop], env=env, capture_output=True, text=True)


def one(bug, tests):
    prop, group, name, file, pairs = bug
    d, err = prepare(f'{group}:{name}', [(file, pairs)])
    if err:
        return bug, 'BROKEN', err, ''
    try:
        p = check(prop, d)
        passed = ''
        if tests:
            shutil.copytree('/repo/tests', d + '/repo/tests')
            for x in ('lookup', 'suggest'):
                t = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; PYTHONPATH=$PWD timeout 600 "$PY" /opt/vp/run_integrational.py '
                                    f'tests/integrational/test_{x}.py {d}/out.{x}'], cwd=d + '/repo',
                                   capture_output=True, text=True)
                if not os.path.exists(f'{d}/out.{x}') or t.returncode or \
                        any(not y.startswith('PASS') for y in open(f'{d}/out.{x}')):
                    passed += f'TESTS {x} '
        why = '' if p.returncode == 1 and 'VIOLATION' in p.stdout else '\n'.join(x[:300] for x in p.stdout.splitlines()[1:6]) + p.stderr[-300:]
        return bug, 'crash' if p.returncode == 1 and why else p.returncode, why, passed
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('which', nargs='*')
    ap.add_argument('-t', action='store_true')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    bugs = [x for x in load() if not args.which or x[0] in args.which or x[1] in args.which or f'{x[1]}:{x[2]}' in args.which
            or f'{x[0]}:{x[2]}' in args.which]
    caught, total = Counter(), Counter()
    with ThreadPoolExecutor(8) as pool:
        for bug, code, why, passed in pool.map(lambda x: one(x, args.t), bugs):
            prop, group, name, *_ = bug
            total[prop] += 1
            if code == 1:
                caught[prop] += 1
            if code != 1 or passed:
                print(f'{prop}:{name} exit {code} {passed}')
                if args.v or code not in (0, 1):
                    print('    ' + why.replace('\n', '\n    '))
    print(', '.join(f'{p}: {caught[p]}/{total[p]}' for p in sorted(total)))
    print(sum(caught.values()), 'of', sum(total.values()))


if __name__ == '__main__':
    main()

"""
Development tool: applies behaviour-preserving edits (trials/*.py) to a scratch copy one by one and shows which checks
object. Not used by any check.

    python3 tools/trials.py [FILE[:NAME]...] [-t] [-c C05,C06] [-v]

-t: also runs the repository tests on the edited copy
"""
import argparse
import ast
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)


def load(path):
    spec = importlib.util.spec_from_file_location('t', path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.TRIALS


def bare(text):
    """Without blank and comment-only lines"""
    res = ''.join(x + '\n' for x in text.splitlines() if x.strip() and not x.strip().startswith('#'))
    return res if text.endswith('\n') else res[:-1]


def bare_source(text):
    tree = ast.parse(text)
    keep, drop = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.end_lineno > n.lineno:
            keep |= set(range(n.lineno, n.end_lineno + 1))
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and len(n.body) > 1 and \
                ast.get_docstring(n) is not None:
            drop |= set(range(n.body[0].lineno, n.body[0].end_lineno + 1))
    keep -= drop
    lines = text.splitlines()
    return ''.join(x + '\n' for i, x in enumerate(lines, 1) if i not in drop and
                   (i in keep or x.strip() and not x.strip().startswith('#')))


def prepare(name, edits):
    """edits: [(file, pairs)] -> scratch directory"""
    d = tempfile.mkdtemp(prefix='trial-')
    shutil.copytree('/repo/spylls', d + '/repo/spylls')
    for file, pairs in edits:
        path = f'{d}/repo/spylls/hunspell/{file}'
        text = bare_source(open(path, encoding='utf-8').read())
        for old, new in pairs:
            old, new = bare(old), bare(new)
            if not old and not new:
                continue
            if text.count(old) != 1:
                shutil.rmtree(d)
                return None, f'text found {text.count(old)} times in {file}: {old[:80]!r}'
            text = text.replace(old, new)
        open(path, 'w', encoding='utf-8').write(text)
        try:
            compile(text, path, 'exec')
        except SyntaxError as e:
            shutil.rmtree(d)
            return None, f'{e}'
    return d, None


def run(job):
    name, edits, args = job
    d, err = prepare(name, edits)
    if err:
        return name, ['BROKEN ' + err]
    res = []
    try:
        if args.t:
            shutil.copytree('/repo/tests', d + '/repo/tests')
            for x in ('lookup', 'suggest'):
                p = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; PYTHONPATH=$PWD "$PY" /opt/vp/run_integrational.py '
                                    f'tests/integrational/test_{x}.py {d}/out.{x}'], cwd=d + '/repo',
                                   capture_output=True, text=True)
                if not os.path.exists(f'{d}/out.{x}'):
                    res.append('TESTS crashed ' + p.stderr[-200:])
                    continue
                bad = [y for y in open(f'{d}/out.{x}') if not y.startswith('PASS')]
                if bad or p.returncode:
                    res.append(f'TESTS {x} {p.stderr[-300:]} {bad[:3]}')
        env = {**os.environ, 'VERIF_REPO': d + '/repo', 'VERIF_EVIDENCE': d + '/ev'}
        und = 0
        for c in args.checks:
            if not args.all and not any(file in args.files.get(c, [file]) for file, _ in edits):
                continue
            p = subprocess.run(['timeout', '100', 'python3', 'check.py', c], cwd=ROOT, capture_output=True, text=True, env=env)
            if p.returncode:
                detail = [x for x in p.stdout.splitlines()[2:] if 'undecided' not in x][:4 if args.v else 1]
                res.append(f'{c} exit {p.returncode}: ' + '\n      '.join(x[:900 if args.v else 260] for x in detail)
                           + p.stderr[-300:])
            for x in p.stdout.splitlines():
                if x.startswith('  undecided:'):
                    und += 1
                    if args.u:
                        res.append(f'  {c}' + x[:400])
        if und:
            res.append(f'undecided {und}')
    finally:
        shutil.rmtree(d)
    return name, res


def analysed(checks):
    """files with functions that each of checks looks into"""
    d = tempfile.mkdtemp(prefix='trial-')
    res = {}
    try:
        def one(c):
            subprocess.run(['python3', 'check.py', c], cwd=ROOT, capture_output=True, env={**os.environ, 'VERIF_EVIDENCE': d})
            with open(f'{d}/{c}.json', encoding='utf-8') as f:
                names = json.load(f)['coverage']['functions']
            res[c] = {x.partition(':')[0].replace('.', '/') + '.py' for x in names}
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, checks))
    finally:
        shutil.rmtree(d)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('what', nargs='*')
    ap.add_argument('-t', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-u', action='store_true')
    ap.add_argument('-c')
    ap.add_argument('-a', dest='all', action='store_true', help='all the checks, not only those that analyse the edited file')
    args = ap.parse_args()
    from check import CHECKS
    args.checks = [x for x in args.c.split(',') if x != '-'] if args.c else sorted(CHECKS)
    args.files = analysed(args.checks)
    files = sorted(f[:-3] for f in os.listdir(os.path.join(ROOT, 'trials')) if f.endswith('.py'))
    jobs = []
    for f in files:
        names = [w.partition(':')[2] for w in args.what if w.partition(':')[0] == f]
        if args.what and not names:
            continue
        for name, file, pairs in load(os.path.join(ROOT, 'trials', f + '.py')):
            if not names or '' in names or name in names:
                edits = [(file, pairs)] if isinstance(file, str) else pairs
                jobs.append((f'{f}:{name}', edits, args))
    alarms = und = 0
    with ThreadPoolExecutor(8) as ex:
        for name, res in ex.map(run, jobs):
            bad = [r for r in res if not r.startswith('undecided') and not r.startswith('  ')]
            alarms += bool(bad)
            und += any(r.startswith('undecided') for r in res)
            if res:
                print(name)
                for r in res:
                    print('   ', r)
                sys.stdout.flush()
    print(f'{len(jobs)} edits, {alarms} with alarms, {und} with something undecided')


if __name__ == "__main__":
    main()

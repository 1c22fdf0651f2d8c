"""
Which checks catch which planted bugs: python3 tools/seeded_table.py (prints rows for DESIGN.md)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def row(sid):
    d = os.path.join(ROOT, 'seeded', sid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        work = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', work)
        subprocess.run(['git', '-C', work, 'apply', os.path.join(d, 'patch.diff')], check=True)
        got = []
        for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']:
            r = subprocess.run([sys.executable, 'check.py', c['property']], cwd=ROOT, capture_output=True, text=True,
                               env={**os.environ, 'VERIF_REPO': work, 'VERIF_EVIDENCE': tmp})
            if r.returncode == 1:
                got.append(c['property'])
            elif r.returncode:
                got.append(c['property'] + ' (error)')
    finally:
        shutil.rmtree(tmp)
    own = meta['property']
    return f"| {sid} | {own} | {meta['what_it_breaks']} | {', '.join(f'**{g}**' if g == own else g for g in got) or 'missed'} |"


with ThreadPoolExecutor(6) as pool:
    for line in pool.map(row, sorted(os.listdir(os.path.join(ROOT, 'seeded')))):
        print(line)

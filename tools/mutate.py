"""
Development tool: makes small mutants of the functions of a source file in a scratch copy and shows which checks notice
them. Not used by any check.

    python3 tools/mutate.py FILE [-f FUNC] [-c C05,C06] [-n MAX] [-t]

-t: mutants no check noticed are run through the demos' opposite: the repository tests (slow)
"""
import argparse
import ast
import copy
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))

CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt],
       ast.GtE: [ast.Gt], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}


def sites(fn):
    """(description, function changing a copied node) for a node"""
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for alt in CMP.get(type(n.ops[0]), []):
                yield n, f'{type(n.ops[0]).__name__}->{alt.__name__}', lambda m, alt=alt: m.ops.__setitem__(0, alt())
        if isinstance(n, ast.BoolOp):
            alt = ast.Or if isinstance(n.op, ast.And) else ast.And
            yield n, f'->{alt.__name__}', lambda m, alt=alt: setattr(m, 'op', alt())
            for i in range(len(n.values)):
                yield n, f'drop operand {i}', lambda m, i=i: m.values.pop(i)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield n, 'drop not', lambda m: setattr(m, 'op', ast.UAdd())
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            for d in (1, -1):
                yield n, f'{n.value}->{n.value + d}', lambda m, d=d: setattr(m, 'value', m.value + d)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield n, f'->{not n.value}', lambda m: setattr(m, 'value', not m.value)
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value and len(n.value) < 20:
            yield n, f'{n.value!r} changed', lambda m: setattr(m, 'value', m.value + 'Q')
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            alt = ast.Sub if isinstance(n.op, ast.Add) else ast.Add
            yield n, f'->{alt.__name__}', lambda m, alt=alt: setattr(m, 'op', alt())
        if isinstance(n, (ast.If, ast.IfExp)):
            yield n, 'condition true', lambda m: setattr(m, 'test', ast.Constant(True))
            yield n, 'condition false', lambda m: setattr(m, 'test', ast.Constant(False))
        if isinstance(n, ast.comprehension) and n.ifs:
            yield n, 'drop filter', lambda m: m.ifs.clear()
        if isinstance(n, ast.Slice):
            for part in ('lower', 'upper'):
                if getattr(n, part) is not None:
                    yield n, f'drop {part}', lambda m, part=part: setattr(m, part, None)
        if isinstance(n, ast.Call) and n.keywords:
            for i, k in enumerate(n.keywords):
                if k.arg:
                    yield n, f'drop {k.arg}=', lambda m, i=i: m.keywords.pop(i)
        if isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
            yield n, 'swap args', lambda m: m.args.reverse()
        if isinstance(n, ast.Attribute):
            swap = {'startswith': 'endswith', 'endswith': 'startswith', 'lower': 'upper', 'upper': 'lower', 'add': 'discard',
                    'partition': 'rpartition', 'find': 'rfind', 'strip': 'lstrip', 'match': 'search',
                    'search': 'match', 'fullmatch': 'match', 'prefix': 'suffix', 'suffix': 'prefix', 'any': 'all'}
            if n.attr in swap:
                yield n, f'.{n.attr}->.{swap[n.attr]}', lambda m, s=swap[n.attr]: setattr(m, 'attr', s)
        if isinstance(n, ast.Name) and n.id in ('any', 'all'):
            yield n, 'any/all', lambda m: setattr(m, 'id', {'any': 'all', 'all': 'any'}[m.id])
        for field in ('body', 'orelse'):
            stmts = getattr(n, field, None)
            if isinstance(stmts, list) and not isinstance(n, ast.Lambda):
                for i, s in enumerate(stmts):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                        continue
                    d = ast.unparse(s).split('\n')[0][:60]
                    yield n, f'drop `{d}`', lambda m, i=i, field=field: getattr(m, field).__setitem__(i, ast.Pass())
                    if isinstance(s, (ast.Continue,)):
                        yield n, 'continue->break', lambda m, i=i, field=field: getattr(m, field).__setitem__(i, ast.Break())
                    if isinstance(s, (ast.Break,)):
                        yield n, 'break->continue', lambda m, i=i, field=field: getattr(m, field).__setitem__(i, ast.Continue())
                    if isinstance(s, ast.Return) and s.value is None:
                        pass


def mutants(src, only=None):
    tree = ast.parse(src)
    order = {}
    for i, n in enumerate(ast.walk(tree)):
        order[id(n)] = i
    funcs = []

    def visit(n, prefix):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.ClassDef):
                visit(c, prefix + c.name + '.')
            elif isinstance(c, ast.FunctionDef):
                funcs.append((prefix + c.name, c))
    visit(tree, '')
    for name, fn in funcs:
        if only and name not in only:
            continue
        for n, what, change in sites(fn):
            if n is fn and what.startswith('drop') is False:
                continue
            idx = order[id(n)]
            t2 = copy.deepcopy(tree)
            m = list(ast.walk(t2))[idx]
            change(m)
            try:
                new = ast.unparse(ast.fix_missing_locations(t2))
                compile(new, 'm', 'exec')
            except Exception:
                continue
            line = getattr(n, 'lineno', None) or fn.lineno
            yield name, line, what, ast.unparse(n).split('\n')[0][:90] if not isinstance(n, ast.comprehension) else '', new


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('-f', default='')
    ap.add_argument('-c', default='')
    ap.add_argument('-n', type=int, default=100000)
    ap.add_argument('-a', action='store_true', help='show noticed ones too')
    args = ap.parse_args()
    from check import CHECKS
    ids = args.c.split(',') if args.c else sorted(CHECKS)
    rel = 'spylls/hunspell/' + args.file
    src = open('/repo/' + rel, encoding='utf-8').read()
    # comments are lost in mutants; so is the layout
    scratch = tempfile.mkdtemp(prefix='mutants.')
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
    try:
        todo = list(mutants(src, set(args.f.split(',')) if args.f else None))[:args.n]

        def one(k):
            name, line, what, text, new = todo[k]
            d = os.path.join(scratch, str(k))
            os.makedirs(d + '/' + os.path.dirname(rel))
            # tree of links with the one changed file
            for base, dirs, files in os.walk('/repo/spylls'):
                dirs[:] = [x for x in dirs if x != '__pycache__']
                to = d + base[len('/repo'):]
                os.makedirs(to, exist_ok=True)
                for f in files:
                    if f.endswith('.py') and base[len('/repo/'):] + '/' + f != rel:
                        os.symlink(base + '/' + f, to + '/' + f)
            with open(d + '/' + rel, 'w', encoding='utf-8') as o:
                o.write(new)
            res = {}
            for i in ids:
                p = subprocess.run([sys.executable, os.path.join(here, 'check.py'), i], capture_output=True, text=True,
                                   env={**os.environ, 'VERIF_REPO': d, 'VERIF_EVIDENCE': d + '/ev'})
                res[i] = p.returncode
            shutil.rmtree(d)
            return k, res
        with ThreadPoolExecutor(8) as ex:
            caught = other = 0
            for k, res in ex.map(one, range(len(todo))):
                name, line, what, text, _ = todo[k]
                hit = [i for i, r in res.items() if r == 1]
                err = [i for i, r in res.items() if r not in (0, 1)]
                if hit:
                    caught += 1
                else:
                    other += 1
                if not hit or args.a or err:
                    print(f'{"+" if hit else "-"} {name}:{line} [{what}] {text}   {",".join(hit)} '
                          f'{"ERR " + ",".join(err) if err else ""}', flush=True)
            print(f'{len(todo)} mutants, {caught} noticed, {other} not')
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


main()

"""
C03: loops and recursions come to their end.
"""

import ast

from .compare import subterms
from .core import Check
from .finish import Finish, endless_for
from .front import AnalysisError

CASING = 'algo.capitalization:'
TABLES = {'data.aff:ConvTable.__call__'}
PARTS = set()
HISTORY = {'algo.suggest:Suggest.suggestions': dict(history=True, callback='algo.suggest:Suggestion')}


def functions(prog):
    return [f for q, f in sorted(prog.functions.items()) if not q.startswith('spec.') and not f.is_lambda]


def nested(func):
    return [n for n in ast.walk(func.node) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n is not func.node]


def calls(node):
    """names of what may be called"""
    res = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name):
                res.add(f.id)
            elif isinstance(f, ast.Attribute):
                res.add(f.attr)
            if isinstance(f, (ast.Name, ast.Attribute)):
                res.add('__call__')
    return res


def components(graph):
    """strongly connected components"""
    index, low, stack, on, res = {}, {}, [], set(), []

    def visit(v):
        index[v] = low[v] = len(index)
        stack.append(v)
        on.add(v)
        for w in graph[v]:
            if w not in index:
                visit(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            comp = set()
            while True:
                w = stack.pop()
                on.discard(w)
                comp.add(w)
                if w == v:
                    break
            res.append(comp)
    for v in graph:
        if v not in index:
            visit(v)
    return res


def heads(comp, graph, prog):
    """functions through which all circles go (the largest ones first)"""
    left = set(comp)
    res = []
    for q in sorted(comp, key=lambda q: (-len(list(ast.walk(prog.functions[q].node))), q)):
        sub = {x: [y for y in graph[x] if y in left] for x in left}
        if all(len(k) == 1 and not any(x in sub[x] for x in k) for k in components(sub)):
            break
        res.append(q)
        left.discard(q)
    return res


def c03():
    c = Check('C03', 'Every query and every load finishes',
              'Measures of progress: for every while loop, a number, length or input that decides of its end and moves towards it '
              'on every way around (guarded value-flow analysis, linear facts); for every call of a function inside of itself '
              '(also through others), an argument that becomes shorter, moves towards its limit, or is set once. Violation: '
              'a way around on which nothing that decides of the end changes.')
    funcs = functions(c.prog)
    if len(funcs) < 60:
        raise AnalysisError(f'only {len(funcs)} functions are found')
    by_name = {}
    for f in funcs:
        by_name.setdefault(f.name, []).append(f.qual)
    loops = {f.qual for f in funcs if any(isinstance(n, ast.While) for n in ast.walk(f.node))}
    examples(c)
    for f in funcs:
        c.count('functions looked through')
        for node, what, verdict in endless_for(f):
            c.count('endless or growing sequences')
            c.add('sequences are finite', f'{f.qual}: {what}', verdict, 'never left', f'{f.path}:{node.lineno}')
    # calls by names: everything that may turn out to be recursive
    graph = {f.qual: sorted({q for n in calls(f.node) for q in by_name.get(n, ())}) for f in funcs}
    recursive = {}
    for comp in components(graph):
        for q in comp:
            if len(comp) > 1 or q in graph[q]:
                recursive[q] = comp
    inner = {f.qual: [n for n in nested(f) if n.name in calls(n)] for f in funcs}
    every = {f.qual for f in funcs}
    resolved = {}
    found = [0]
    for f in funcs:
        q = f.qual
        if q in loops or q in recursive or inner[q]:
            c.fresh()
            c.guarded('comes to its end', q, lambda: unit(c, f, every, recursive, inner[q], resolved, found))
    # calls as they are resolved
    resolved = {q: sorted(v) for q, v in resolved.items()}
    for comp in components({q: [x for x in v if x in resolved] for q, v in resolved.items()}):
        if len(comp) > 1:
            for q in heads(comp, resolved, c.prog):
                c.fresh()
                c.guarded('comes to its end', q, lambda: mutual(c, q, comp, every))
    if c.counts.get('loops', 0) + c.counts.get('recursive calls', 0) < 6:
        raise AnalysisError('loops and recursions are gone: the analysis does not see them')
    c.assumptions += ['letters and groups of letters in MAP, and texts in BREAK, are not empty',
                      'files that are read end']
    return c.finish()


def examples(c):
    found = {}
    for name in ('spins', 'walks', 'repeats', 'tails'):
        c.fresh()
        run = c.analyse('spec:witness:' + name, opaque={'spec:witness:' + name}, watch=('loop', 'call'))
        m = finish(run)
        for e in run.events:
            if e.kind == 'loop':
                found[name] = m.loop(e)[0]
            elif e.kind == 'call' and e.term.op in ('call', 'gen') and e.term.args[0].name == name:
                found[name] = m.recursion(e, {x: c.alg.sym(x) for x in dict(e.term.args[1])})[0]
    if found != {'spins': 'bad', 'walks': 'ok', 'repeats': 'bad', 'tails': 'ok'}:
        raise AnalysisError(f'examples are not recognised: {found}')
    c.count('examples recognised', len(found))


def finish(run):
    return Finish(run, tables=TABLES, parts=PARTS, guess=CASING + 'Casing.guess', letters=[CASING + 'Casing.lower'],
                  numbers=['COMPOUNDMIN'], assumed=assumed, empty=['replacement', 'strip', 'add'])


def assumed(t):
    return t.op == 'elem' and t.args[0].op == 'elem' and any(x.op in ('sym', 'attr') and x.args[-1 if x.op == 'attr' else 0] in
                                                            ('maptable', 'MAP') for x in [t.args[0].args[0]])


def unit(c, f, every, recursive, inner, resolved, found):
    q = f.qual
    gen = {}
    for n in inner:
        a = n.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        gen[f'{q}.{n.name}'] = {x: c.alg.sym(f'{n.name}.{x}') for x in names}
    run = c.analyse(q, opaque=every - {q}, watch=('loop', 'call'), generalise=gen, **HISTORY.get(q, {}))
    m = finish(run)
    for e in run.events:
        at = e.func.qual if e.func else q
        if e.kind == 'loop':
            c.count('loops')
            verdict, detail = m.loop(e)
            c.add('loop comes to its end', f'{at}: while {ast.unparse(e.node.test)}', verdict, detail, e.where)
        elif e.kind == 'call' and e.term.op in ('call', 'gen'):
            callee = e.term.args[0].qual
            resolved.setdefault(q, set()).add(callee)
            if callee == q:
                c.count('recursive calls')
                params = {x: c.alg.sym(x) for x in dict(e.term.args[1])}
                params = {x: run.args.get(x, t) for x, t in params.items()} if hasattr(run, 'args') else params
                verdict, detail = m.recursion(e, params)
                c.add('recursion comes to its end', f'{at}: {ast.unparse(e.node)[:90]}', verdict, detail, e.where)
            elif callee in gen and e.func is not None and (e.func.qual == callee or e.func.qual.startswith(callee + '.')):
                c.count('recursive calls')
                verdict, detail = m.recursion(e, gen[callee])
                c.add('recursion comes to its end', f'{at}: {ast.unparse(e.node)[:90]}', verdict, detail, e.where)


def mutual(c, q, comp, every):
    run = c.analyse(q, opaque=every - comp, inline=comp - {q}, watch=('call',), **HISTORY.get(q, {}))
    m = finish(run)
    for e in run.events:
        if e.kind == 'call' and e.term.op in ('call', 'gen') and e.term.args[0].qual == q:
            c.count('recursive calls')
            params = {x: c.alg.sym(x) for x in dict(e.term.args[1])}
            verdict, detail = m.recursion(e, params)
            at = e.func.qual if e.func else q
            c.add('recursion comes to its end', f'{q} from {at}: {ast.unparse(e.node)[:90]}', verdict, detail, e.where)


CHECKS = {'C03': c03}

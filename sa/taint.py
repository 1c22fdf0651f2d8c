"""
Taint of regular expressions: which texts may become a part of pattern (C25).

Every pattern the program makes is traced to its sources through concatenations, joins, loops and helper
functions. A source is harmless if it is constant, escaped, or is cut by a constant expression so that it can
hold only quantifiers or letters.
"""

import ast
import re
import warnings

from .alg import show
from .front import loc

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    try:
        from re import _parser as sre_parse, _constants as sre_const
    except ImportError:
        import sre_parse
        import sre_constants as sre_const

# name -> position of the pattern
MAKERS = {'re.' + n: 0 for n in ('compile', 'search', 'match', 'fullmatch', 'split', 'findall', 'finditer', 'sub', 'subn')}

QUANTIFIERS = set('*?')
ANCHORS = {('\\^', '^'), ('\\$', '$')}


class Group:
    """what a part of constant pattern can match: set of characters or `letters`"""

    @staticmethod
    def chars(items, res=None):
        """characters (None: any)"""
        res = set() if res is None else res
        for op, av in items:
            if op is sre_const.LITERAL:
                res.add(chr(av))
            elif op is sre_const.IN:
                for o, a in av:
                    if o is sre_const.LITERAL:
                        res.add(chr(a))
                    elif o is sre_const.RANGE:
                        res |= {chr(x) for x in range(a[0], a[1] + 1)}
                    elif o is sre_const.CATEGORY and a in (sre_const.CATEGORY_WORD, sre_const.CATEGORY_DIGIT):
                        res.add('letters')
                    else:
                        return None
            elif op is sre_const.CATEGORY and av in (sre_const.CATEGORY_WORD, sre_const.CATEGORY_DIGIT):
                res.add('letters')
            elif op in (sre_const.MAX_REPEAT, sre_const.MIN_REPEAT):
                if Group.chars(av[2], res) is None:
                    return None
            elif op is sre_const.SUBPATTERN:
                if Group.chars(av[3], res) is None:
                    return None
            elif op is sre_const.BRANCH:
                for b in av[1]:
                    if Group.chars(b, res) is None:
                        return None
            elif op in (sre_const.AT, sre_const.ASSERT, sre_const.ASSERT_NOT):
                pass
            else:
                return None
        return res

    @staticmethod
    def find(items, n):
        for op, av in items:
            if op is sre_const.SUBPATTERN:
                if av[0] == n:
                    return av[3]
                r = Group.find(av[3], n)
            elif op in (sre_const.MAX_REPEAT, sre_const.MIN_REPEAT):
                r = Group.find(av[2], n)
            elif op is sre_const.BRANCH:
                r = next((x for x in (Group.find(b, n) for b in av[1]) if x is not None), None)
            else:
                r = None
            if r is not None:
                return r
        return None

    @staticmethod
    def tail(items, k):
        """the rest after the first k characters, if each is matched by its own item"""
        items = list(items)
        for op, _ in items[:k]:
            if op not in (sre_const.LITERAL, sre_const.NOT_LITERAL, sre_const.IN, sre_const.ANY):
                return None
        return items[k:] if len(items) >= k else None


def harmless(chars):
    """only quantifiers, or only letters"""
    return chars is not None and (chars <= QUANTIFIERS or
                                  all(c == 'letters' or c.isalnum() or c == '_' for c in chars))


class Tracer:
    def __init__(self, alg, exempt=()):
        self.alg = alg
        self.exempt = exempt
        self.exempted = set()

    def pattern(self, t):
        """constant pattern of re.findall(...), compiled.fullmatch(...) etc."""
        if t.op == 'ext' and t.args[0] in MAKERS and t.args[1] and t.args[1][0].op == 'const':
            p = t.args[1][0].args[1]
            return p if isinstance(p, str) else None
        if t.op == 'meth':
            return self.pattern(t.args[0])
        return None

    def cut(self, t):
        """text cut by a constant pattern: its possible characters, or None"""
        group = None
        drop = 0
        cur = t
        for _ in range(4):
            if cur.op == 'slice' and cur.args[1].op == 'const' and isinstance(cur.args[1].args[1], int) and \
                    cur.args[1].args[1] >= 0 and cur.args[3].op == 'const' and cur.args[3].args[1] is None:
                drop += cur.args[1].args[1]
                cur = cur.args[0]
            elif cur.op == 'index' and cur.args[1].op == 'const' and isinstance(cur.args[1].args[1], int) and \
                    cur.args[0].op in ('elem', 'first'):
                if group is not None:
                    return None
                group = cur.args[1].args[1]
                cur = cur.args[0]
            else:
                break
        pat = None
        groups = None
        if cur.op in ('elem', 'first') and isinstance(cur.args[0], type(cur)):
            src = cur.args[0]
            if self.call_name(src) in ('findall',):
                pat = self.pattern(src)
                if pat is not None:
                    tree = sre_parse.parse(pat)
                    n = tree.state.groups - 1
                    if group is not None and n >= 2:
                        groups = group + 1
                    elif group is not None:
                        return None
                    else:
                        groups = 1 if n == 1 else 0
                        if n > 1:
                            return None
        elif cur.op == 'meth' and cur.args[1] == 'group' and len(cur.args[2]) == 1 and cur.args[2][0].op == 'const' and \
                group is None:
            pat = self.pattern(cur.args[0])
            if pat is not None:
                tree = sre_parse.parse(pat)
                groups = cur.args[2][0].args[1]
                if isinstance(groups, str):
                    groups = tree.state.groupdict.get(groups)
                    if groups is None:
                        return None
        if pat is None:
            return None
        items = list(tree) if groups == 0 else Group.find(tree, groups)
        if items is None:
            return None
        if drop:
            items = Group.tail(items, drop)
            if items is None:
                return None
        return Group.chars(items)

    @staticmethod
    def call_name(t):
        if t.op == 'ext':
            return t.args[0].split('.')[-1]
        if t.op == 'meth':
            return t.args[1]
        return None

    def raw(self, t, depth=0):
        """sources of text that are not harmless: [(kind, term)], kind: raw | unknown"""
        if depth > 60:
            return [('unknown', t)]
        d = depth + 1
        op, a = t.op, t.args
        chars = self.cut(t)
        if chars is not None and harmless(chars):
            return []
        if op in ('const', 'arg', 'hole'):
            return []
        if op == 'concat':
            return [x for p in a for x in self.raw(p, d)]
        if op == 'v':
            return [x for _, p in a[0] for x in self.raw(p, d)]
        if op == 'seq':
            return [x for i in a[1] for x in self.raw(i.term, d)]
        if op == 'ext':
            name = a[0]
            if name == 're.escape':
                return []
            if name in ('str', 'list', 'tuple', 'reversed', 'iter', 'sorted', 'set', 'filter'):
                return [x for p in a[1][-1:] for x in self.raw(p, d)]
            if name == 'functools.reduce':
                res = []
                for p in a[1]:
                    res += self.raw(p.args[1] if p.op == 'lam' else p, d)
                return res
            if name == 'map' and a[1] and a[1][0].op == 'extref' and a[1][0].args[0] == 're.escape':
                return []
        if op == 'lam':
            return self.raw(a[1], d)
        if op in ('elem', 'first') and isinstance(a[0], type(t)):
            if a[0].op in ('seq', 'ext', 'slice', 'v', 'concat', 'mu', 'mupost'):
                return self.raw(a[0], d)
            if op == 'first' and a[0].op == 'elem':
                return self.raw(a[0], d)
            return [('raw', t)]
        if op == 'index':
            if a[0].op in ('seq',):
                return self.raw(a[0], d)
        if op == 'slice':
            sub = self.raw(a[0], d)
            if not sub and a[0].op not in ('seq', 'ext') and not (a[0].op == 'const'):
                return [('unknown', t)]
            return sub
        if op == 'meth':
            recv, name, args, kw = a
            if name == 'join' and len(args) == 1:
                return self.raw(recv, d) + self.raw(args[0], d)
            if name == 'format':
                return [x for p in (recv, *args, *[v for _, v in kw]) for x in self.raw(p, d)]
            if name == 'replace' and len(args) == 2 and all(x.op == 'const' for x in args):
                before = set(self.exempted)
                sub = self.raw(recv, d)
                if sub or recv.op == 'attr' or self.exempted != before:
                    return sub
                old, new = (x.args[1] for x in args)
                if (old, new) in ANCHORS or isinstance(old, str) and isinstance(new, str) and \
                        re.fullmatch(r'[\w ]*', old + new):
                    return []
                return [('raw', t)]
            if name in ('replace',):
                return self.raw(recv, d) + [x for p in args for x in self.raw(p, d)]
        if op == 'attr' and self.exempt:
            ty = self.alg.strip_opt(self.alg.typeof(a[0]))
            for cls, name in self.exempt:
                if a[1] == name and ty and ty[0] == 'cls' and any(c.qual == cls for c in ty[1].mro()):
                    self.exempted.add(f'{cls}.{name}')
                    return []
        if op in ('mu', 'mupost'):
            m = a[0] if op == 'mupost' else t
            if m.op != 'mu' or len(m.args) < 4:
                return [('unknown', t)]
            # what the loop starts with and what it adds
            return self.raw(m.args[2][m.args[1]], d) + [x for p in m.args[3] for x in self.raw(p, d)]
        if op in ('phi', 'unk', 'unbound', 'mutated', 'apply', 'partial', 'closure'):
            return [('unknown', t)]
        return [('raw', t)]


def sites(prog):
    """calls that make or use a pattern, as resolved: [(module, function or None, node, name)]"""
    res = []
    for m in prog.modules.values():
        if m.name.startswith('spec.'):
            continue
        owner = {}
        for f in prog.functions.values():
            if f.module is m:
                for n in ast.walk(f.node):
                    owner[n] = f
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                b = prog.resolve(m, n.func)
                if b and b[0] == 'ext' and b[1] in MAKERS:
                    res.append((m, owner.get(n), n, b[1]))
    return res


def substitutions(prog):
    """functions that call methods of patterns taking a template"""
    return [f for f in prog.functions.values() if not f.qual.startswith('spec.') and
            any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('sub', 'subn', 'expand')
                for n in ast.walk(f.node))]


def callers(prog, func):
    """functions where the name of the function is used"""
    res = []
    for f in prog.functions.values():
        if f is func or f.qual.startswith('spec.'):
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and n.id == func.name or isinstance(n, ast.Attribute) and n.attr == func.name:
                res.append(f)
                break
    return res


def check_patterns(c, exempt):
    found = sites(c.prog)
    c.count('calls making patterns', len(found))
    if len(found) < 10:
        c.require('patterns are made by module re', 'package', False, f'only {len(found)} uses of module re are found')
    todo = []
    judged = set()
    for m, f, node, name in found:
        where = loc(m, node)
        if f is None:
            const = node.args and isinstance(node.args[0], ast.Constant) and isinstance(node.args[0].value, str)
            c.add('pattern is made only of constants and escaped text', f'{m.short} {name}', 'ok' if const else 'unknown',
                  'pattern of module or class', where)
        elif f not in todo:
            todo.append(f)
    todo += [f for f in substitutions(c.prog) if f not in todo]
    k = 0
    while k < len(todo):
        f = todo[k]
        k += 1
        c.guarded('pattern is made only of constants and escaped text', f.qual,
                  lambda: function_patterns(c, f, exempt, todo))


def function_patterns(c, f, exempt, todo):
    c.fresh()
    run = c.analyse(f, watch=('call',))
    tr = Tracer(c.alg, exempt)
    params = {run.args[p] for p in run.args}
    used = callers(c.prog, f)
    deferred = False
    for e in run.events:
        if e.kind != 'extcall' or e.term.args[0] not in MAKERS:
            continue
        args = e.term.args[1]
        pats = list(args[:1]) + [v for n, v in e.term.args[2] if n == 'pattern']
        pos = 1 if e.term.args[0] in ('re.sub', 're.subn') else None
        if not pats:
            c.add('pattern is made only of constants and escaped text', f.qual, 'unknown', 'no pattern', e.where)
            continue
        for t in pats:
            bad = tr.raw(t)
            mine = [x for x in bad if x[1] in params and used]
            rest = [x for x in bad if x not in mine]
            if mine:
                deferred = True
            raw = [x for x in rest if x[0] == 'raw']
            status = 'bad' if raw else 'unknown' if rest else 'ok'
            c.add('pattern is made only of constants and escaped text', f.qual, status,
                  f'{show(t)[:200]}: text {show((raw or rest)[0][1])[:200]} is taken for an expression' if rest else
                  show(t)[:160], e.where)
        if pos is not None and len(args) > pos:
            replacement(c, f, args[pos], e)
    for e in run.events:
        if e.kind == 'methcall' and e.term.args[0] in ('sub', 'subn'):
            ty = c.alg.strip_opt(c.alg.typeof(e.term.args[1]))
            if e.term.args[2]:
                replacement(c, f, e.term.args[2][0], e)
    if deferred:
        for g in used:
            if g not in todo:
                todo.append(g)
    c.counts['texts exempt as documented'] = max(c.counts.get('texts exempt as documented', 0), len(tr.exempted))


def replacement(c, f, t, e):
    rule = 'replacement is put as it is'
    if t.op in ('closure', 'func', 'bound', 'lam'):
        c.add(rule, f.qual, 'ok', 'function', e.where)
    elif t.op == 'const':
        c.add(rule, f.qual, 'ok', show(t), e.where)
    elif t.op in ('phi', 'unk', 'mu', 'mupost', 'apply'):
        c.add(rule, f.qual, 'unknown', show(t)[:100], e.where)
    elif t.op == 'meth' and t.args[1] == 'replace' and t.args[2] and t.args[2][0].op == 'const' and \
            t.args[2][0].args[1] == '\\':
        c.add(rule, f.qual, 'ok', 'backslashes are escaped', e.where)
    else:
        c.add(rule, f.qual, 'bad', f'{show(t)[:200]} is taken for a template', e.where)

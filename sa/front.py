"""
Front end: parses every module of the package in the repository's working tree and resolves
names, imports, classes, methods, dataclass fields, enums and type annotations.

Nothing of the analysed program is imported or run; everything is made from its syntax trees.
"""

import ast
import copy
import functools
import os


class AnalysisError(Exception):
    """The analysis can't give an answer (anchor vanished, source can't be parsed...)"""


MUTATORS = {'append', 'add', 'extend', 'update', 'insert', 'remove', 'pop', 'popitem', 'clear', 'discard', 'setdefault',
            'sort', 'reverse', 'appendleft'}


class Vanished(AnalysisError):
    """Function or class that the check is about is not found"""


REPO = os.environ.get('VERIF_REPO', '/repo')
PACKAGE = 'spylls'


class FuncInfo:
    def __init__(self, name, qual, node, module, cls=None, outer=None):
        self.name = name
        self.qual = qual            # e.g. "algo.lookup:Lookup.good_forms"
        self.node = node
        self.module = module
        self.cls = cls
        self.outer = outer
        self.is_lambda = isinstance(node, ast.Lambda)
        self.decorators = [] if self.is_lambda else [dotted(d.func if isinstance(d, ast.Call) else d)
                                                     for d in node.decorator_list]
        self.is_generator = (not self.is_lambda) and has_yield(node)
        self.static = 'staticmethod' in self.decorators
        self.classmethod = 'classmethod' in self.decorators
        self.property = 'property' in self.decorators or \
            any(d and d.endswith('cached_property') for d in self.decorators)

    @property
    def path(self):
        return self.module.relpath

    def where(self):
        return f'{self.path}:{self.node.lineno}'

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs], \
            (a.vararg.arg if a.vararg else None), (a.kwarg.arg if a.kwarg else None)

    def defaults(self):
        """param name -> default expression"""
        a = self.node.args
        pos = a.posonlyargs + a.args
        res = {}
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            res[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                res[p.arg] = d
        return res

    def annotation(self, param):
        a = self.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.arg == param:
                return p.annotation
        return None

    @property
    def returns(self):
        return None if self.is_lambda else self.node.returns

    def __repr__(self):
        return f'<{self.qual}>'


def giving(stmts):
    """`return x` -> `yield from x; return`, nested functions excluded"""
    res = []
    for n in stmts:
        if isinstance(n, ast.Return):
            if n.value is not None:
                y = ast.copy_location(ast.YieldFrom(value=n.value), n)
                res.append(ast.copy_location(ast.Expr(value=y), n))
            res.append(ast.copy_location(ast.Return(value=None), n))
            continue
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for field in ('body', 'orelse', 'finalbody'):
                if getattr(n, field, None) and isinstance(getattr(n, field), list):
                    n = copy.copy(n)
                    setattr(n, field, giving(getattr(n, field)))
            if isinstance(n, ast.Try):
                n = copy.copy(n)
                hs = []
                for h in n.handlers:
                    h = copy.copy(h)
                    h.body = giving(h.body)
                    hs.append(h)
                n.handlers = hs
        res.append(n)
    return res


def as_generator(f):
    """function that returns an iterable, as the generator of its elements"""
    node = copy.copy(f.node)
    node.body = giving(f.node.body)
    res = copy.copy(f)
    res.node = node
    res.is_generator = True
    return res


class ClassInfo:
    def __init__(self, name, qual, node, module):
        self.name = name
        self.qual = qual
        self.node = node
        self.module = module
        self.methods = {}
        self.fields = []            # dataclass fields: (name, annotation, default expr)
        self.consts = {}            # class-level assignments: name -> expr
        self.annotations = {}       # class-level annotations: name -> annotation expr
        self.nested = {}
        self.base_exprs = node.bases
        self.bases = []             # resolved ClassInfo
        self.is_dataclass = False
        self.frozen = False

    def mro(self):
        res = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in res:
                    res.append(c)
        return res

    def method(self, name, skip=0):
        for c in self.mro()[skip:]:
            if name in c.methods:
                return c.methods[name]
        return None

    def all_fields(self):
        res = {}
        for c in reversed(self.mro()):
            for f in c.fields:
                res[f[0]] = f
        return list(res.values())

    def const(self, name):
        for c in self.mro():
            if name in c.consts:
                return c, c.consts[name]
        return None

    def annotation(self, name):
        for c in self.mro():
            if name in c.annotations:
                return c, c.annotations[name]
        return None

    def always_truthy(self):
        return not self.method('__bool__') and not self.method('__len__')

    def __repr__(self):
        return f'<class {self.qual}>'


class EnumInfo:
    def __init__(self, name, qual, members, module, node):
        self.name = name
        self.qual = qual
        self.members = members
        self.module = module
        self.node = node

    def __repr__(self):
        return f'<enum {self.qual}>'


class Module:
    def __init__(self, name, path, relpath, tree, source):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.tree = tree
        self.source = source
        self.ns = {}                # name -> binding

    @property
    def short(self):
        n = self.name
        for p in ('spylls.hunspell.', 'spylls.'):
            if n.startswith(p):
                return n[len(p):]
        return n


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        base = dotted(node.value)
        return base + '.' + node.attr if base else None
    return None


def has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef,
                          ast.GeneratorExp)):
            # generator expressions have their own scope; yields can't be there
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.functions = {}
        self.classes = {}
        self.enums = {}
        self._attr_types = {}
        self._reference_attrs = None
        self._made = {}
        self.load()

    # Loading

    def load(self):
        root = os.path.join(self.repo, PACKAGE)
        if not os.path.isdir(root):
            raise AnalysisError(f'package directory {root} does not exist')
        for base, dirs, files in sorted(os.walk(root)):
            dirs[:] = sorted(d for d in dirs if d != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(base, f)
                rel = os.path.relpath(path, self.repo)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                self.add_source(name, path, rel, open(path, encoding='utf-8').read())
        for m in list(self.modules.values()):
            self.bind_imports(m)
        for c in self.classes.values():
            for b in c.base_exprs:
                r = self.resolve(c.module, b)
                if r and r[0] == 'class':
                    c.bases.append(r[1])

    def add_source(self, name, path, rel, source):
        try:
            tree = ast.parse(source, filename=path)
        except SyntaxError as e:
            raise AnalysisError(f'{rel} can not be parsed: {e}')
        m = Module(name, path, rel, tree, source)
        self.modules[name] = m
        self.collect(m)
        return m

    @property
    def reference_attrs(self):
        """names of attributes the references know about"""
        if self._reference_attrs is None:
            root = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs')
            res = set()
            for f in sorted(os.listdir(root)):
                if f.endswith('.py'):
                    for n in ast.walk(ast.parse(open(os.path.join(root, f), encoding='utf-8').read())):
                        if isinstance(n, ast.Attribute):
                            res.add(n.attr)
            self._reference_attrs = res
        return self._reference_attrs

    @functools.cached_property
    def reference_defaults(self):
        """function -> arguments that may be left out, as the reference knows them"""
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', 'defaults.py'),
                  encoding='utf-8') as f:
            tree = ast.parse(f.read())
        table = next(s.value for s in tree.body if isinstance(s, ast.Assign))
        return {q.value: {p.value: v for p, v in zip(d.keys, d.values)} for q, d in zip(table.keys, table.values)}

    def made_by_init(self, cls, name):
        """
        attribute that is set once and for all when the object is made: -> (function, expression, {parameter: attribute
        that keeps it})
        """
        key = (cls.qual, name)
        if key not in self._made:
            self._made[key] = self._made_by_init(cls, name)
        return self._made[key]

    def _made_by_init(self, cls, name):
        found = []
        mine = lambda t: isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self'
        for c in self.classes.values():
            if c not in cls.mro() and cls not in c.mro():
                continue
            for f in c.methods.values():
                top = set(f.node.body)
                for n in ast.walk(f.node):
                    if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                        for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                            for x in ast.walk(t):
                                if isinstance(x, ast.Attribute) and x.attr == name:
                                    plain = x is t and mine(t) and n in top and not isinstance(n, ast.AugAssign) and \
                                        f.name in ('__init__', '__post_init__') and n.value is not None
                                    found.append((f, n.value) if plain else None)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and mine(n.func.value) and \
                            n.func.value.attr == name and n.func.attr in MUTATORS:
                        found.append(None)
                    elif isinstance(n, (ast.Delete, ast.For, ast.With)) and any(
                            isinstance(x, ast.Attribute) and x.attr == name and not isinstance(x.ctx, ast.Load)
                            for x in ast.walk(n)):
                        found.append(None)
        if len(found) != 1 or found[0] is None:
            return None
        f, expr = found[0]
        kept = {}
        for n in f.node.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and mine(n.targets[0]) and isinstance(n.value, ast.Name):
                kept.setdefault(n.value.id, n.targets[0].attr)
        local = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        inner = {x.id for x in ast.walk(expr) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        inner |= {a.arg for x in ast.walk(expr) if isinstance(x, ast.Lambda) for a in x.args.args}
        pos, kwonly, var, kw = f.params
        for x in ast.walk(expr):
            if isinstance(x, ast.Name) and x.id not in inner:
                if x.id in local or x.id != 'self' and x.id in pos + kwonly + [var, kw] and x.id not in kept:
                    return None
        return f, expr, kept

    def add_spec_module(self, name, path, source):
        """Specification written as Python code; resolved against the analysed program."""
        m = self.add_source(name, path, os.path.basename(path), source)
        self.bind_imports(m)
        for c in self.classes.values():
            if c.module is m:
                for b in c.base_exprs:
                    r = self.resolve(m, b)
                    if r and r[0] == 'class':
                        c.bases.append(r[1])
        return m

    def collect(self, m):
        for node in top_statements(m.tree.body):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(node.name, f'{m.short}:{node.name}', node, m)
                self.functions[f.qual] = f
                m.ns[node.name] = ('func', f)
            elif isinstance(node, ast.ClassDef):
                self.collect_class(m, node, node.name, m.ns)
            elif isinstance(node, (ast.Assign, ast.AnnAssign)):
                targets = node.targets if isinstance(node, ast.Assign) else [node.target]
                if node.value is None:
                    continue
                for t in targets:
                    if isinstance(t, ast.Name):
                        e = functional_enum(node.value)
                        if e:
                            info = EnumInfo(t.id, f'{m.short}:{t.id}', e, m, node)
                            self.enums[info.qual] = info
                            m.ns[t.id] = ('enum', info)
                        else:
                            m.ns[t.id] = ('const', node.value, m)

    def collect_class(self, m, node, qualname, ns):
        bases = [dotted(b) or '' for b in node.bases]
        if any(b.split('.')[-1] in ('Enum', 'IntEnum', 'Flag', 'IntFlag', 'StrEnum') for b in bases):
            members = []
            for s in node.body:
                if isinstance(s, ast.Assign):
                    members += [t.id for t in s.targets if isinstance(t, ast.Name)]
            info = EnumInfo(node.name, f'{m.short}:{qualname}', members, m, node)
            self.enums[info.qual] = info
            ns[node.name] = ('enum', info)
            return
        c = ClassInfo(node.name, f'{m.short}:{qualname}', node, m)
        self.classes[c.qual] = c
        ns[node.name] = ('class', c)
        for d in node.decorator_list:
            name = dotted(d.func if isinstance(d, ast.Call) else d) or ''
            if name.split('.')[-1] == 'dataclass':
                c.is_dataclass = True
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        if k.arg == 'frozen' and isinstance(k.value, ast.Constant) and k.value.value:
                            c.frozen = True
        if any(b.split('.')[-1] == 'NamedTuple' for b in bases):
            c.is_dataclass = True
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(s.name, f'{m.short}:{qualname}.{s.name}', s, m, cls=c)
                c.methods[s.name] = f
                self.functions[f.qual] = f
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.annotations[s.target.id] = s.annotation
                if c.is_dataclass:
                    c.fields.append((s.target.id, s.annotation, s.value))
                elif s.value is not None:
                    c.consts[s.target.id] = s.value
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.consts[t.id] = s.value
            elif isinstance(s, ast.ClassDef):
                self.collect_class(m, s, f'{qualname}.{s.name}', c.nested)

    def bind_imports(self, m):
        is_pkg = os.path.basename(m.path) == '__init__.py'
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Import):
                for a in node.names:
                    if a.asname:
                        m.ns.setdefault(a.asname, self.module_binding(a.name))
                    else:
                        top = a.name.split('.')[0]
                        m.ns.setdefault(top, self.module_binding(top))
            elif isinstance(node, ast.ImportFrom):
                base = node.module or ''
                if node.level:
                    parts = m.name.split('.')
                    if not is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (node.level - 1)]
                    base = '.'.join(parts + ([base] if base else []))
                for a in node.names:
                    m.ns.setdefault(a.asname or a.name, ('import', base, a.name))

    def module_binding(self, name):
        if name in self.modules:
            return ('module', self.modules[name])
        return ('ext', name)

    # Name resolution

    def lookup(self, m, name, seen=()):
        b = m.ns.get(name)
        if b is None:
            sub = self.modules.get(m.name + '.' + name)
            return ('module', sub) if sub else None
        if b[0] == 'import':
            _, base, orig = b
            if (base, orig) in seen:
                return None
            if base in self.modules:
                r = self.lookup(self.modules[base], orig, seen + ((base, orig),))
                if r:
                    return r
            if base + '.' + orig in self.modules:
                return ('module', self.modules[base + '.' + orig])
            return ('ext', base + '.' + orig if base else orig)
        return b

    def resolve(self, m, expr):
        """Resolves dotted expression in module to binding."""
        if isinstance(expr, ast.Constant) and isinstance(expr.value, str):
            try:
                expr = ast.parse(expr.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(expr, ast.Name):
            r = self.lookup(m, expr.id)
            return r
        if isinstance(expr, ast.Attribute):
            base = self.resolve(m, expr.value)
            return self.attr_of(base, expr.attr)
        return None

    def attr_of(self, base, name):
        if base is None:
            return None
        if base[0] == 'module':
            return self.lookup(base[1], name)
        if base[0] == 'ext':
            return ('ext', base[1] + '.' + name)
        if base[0] == 'class':
            if name in base[1].nested:
                return base[1].nested[name]
            f = base[1].method(name)
            if f:
                return ('func', f)
            c = base[1].const(name)
            if c:
                return ('const', c[1], c[0].module)
        if base[0] == 'enum' and name in base[1].members:
            return ('member', base[1], name)
        return None

    # Types: tuples ('cls', ClassInfo) ('enum', EnumInfo) ('opt', t) ('list', t) ('set', t)
    # ('dict', k, v) ('iter', t) ('tuple', ts) ('str',) ('int',) ('float',) ('bool',) ('ext', name) None

    def type_of_annotation(self, m, a):
        if a is None:
            return None
        if isinstance(a, ast.Constant):
            if a.value is None:
                return ('none',)
            if isinstance(a.value, str):
                try:
                    return self.type_of_annotation(m, ast.parse(a.value, mode='eval').body)
                except SyntaxError:
                    return None
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            return self.union([self.type_of_annotation(m, a.left), self.type_of_annotation(m, a.right)])
        if isinstance(a, ast.Subscript):
            name = (dotted(a.value) or '').split('.')[-1]
            args = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            ts = [self.type_of_annotation(m, x) for x in args]
            if name == 'Optional':
                return ('opt', ts[0])
            if name == 'Union':
                return self.union(ts)
            if name in ('List', 'list', 'Sequence', 'MutableSequence', 'Deque', 'deque'):
                return ('list', ts[0])
            if name in ('Set', 'set', 'FrozenSet', 'frozenset', 'AbstractSet'):
                return ('set', ts[0])
            if name in ('Dict', 'dict', 'Mapping', 'DefaultDict', 'defaultdict'):
                return ('dict', ts[0], ts[1] if len(ts) > 1 else None)
            if name in ('Iterator', 'Generator'):
                return ('iter', ts[0])
            if name in ('Iterable', 'Collection'):
                return ('coll', ts[0])
            if name in ('Tuple', 'tuple'):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return ('list', ts[0])
                return ('tuple', tuple(ts))
            return None
        name = dotted(a)
        if name is None:
            return None
        last = name.split('.')[-1]
        simple = {'str': ('str',), 'int': ('int',), 'float': ('float',), 'bool': ('bool',),
                  'list': ('list', None), 'List': ('list', None), 'set': ('set', None), 'Set': ('set', None),
                  'dict': ('dict', None, None), 'Dict': ('dict', None, None), 'Iterator': ('iter', None),
                  'bytes': ('bytes',)}
        if last in simple:
            return simple[last]
        r = self.resolve(m, a)
        if r:
            if r[0] == 'class':
                return ('cls', r[1])
            if r[0] == 'enum':
                return ('enum', r[1])
            if r[0] == 'const':
                # type alias
                return self.type_of_annotation(r[2], r[1])
            if r[0] == 'ext':
                return ('ext', r[1])
        return None

    @staticmethod
    def union(ts):
        non = [t for t in ts if t != ('none',)]
        opt = len(non) != len(ts)
        t = non[0] if len(non) == 1 else (('union', tuple(non)) if non else None)
        return ('opt', t) if opt else t

    def attr_type(self, cls, name):
        """Type of attribute of instance: annotation, or what is assigned to it in methods"""
        key = (cls.qual, name)
        if key in self._attr_types:
            return self._attr_types[key]
        self._attr_types[key] = None
        t = None
        a = cls.annotation(name)
        if a:
            t = self.type_of_annotation(a[0].module, a[1])
        else:
            for c in cls.mro():
                for f in c.methods.values():
                    if f.params[0][:1] != ['self']:
                        continue
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Assign):
                            for tg in n.targets:
                                if isinstance(tg, ast.Attribute) and tg.attr == name and \
                                        isinstance(tg.value, ast.Name) and tg.value.id == 'self':
                                    t2 = self.static_type(f, n.value)
                                    t = self.join_types(t, t2) if t else t2
                        elif isinstance(n, ast.AnnAssign):
                            tg = n.target
                            if isinstance(tg, ast.Attribute) and tg.attr == name and \
                                    isinstance(tg.value, ast.Name) and tg.value.id == 'self':
                                t = self.type_of_annotation(f.module, n.annotation)
        self._attr_types[key] = t
        return t

    @staticmethod
    def join_types(a, b):
        if a == b or b is None:
            return a
        if a is None:
            return b
        if a[0] == 'cls' and b[0] == 'cls':
            for c in a[1].mro():
                if c in b[1].mro():
                    return ('cls', c)
        return a

    def static_type(self, f, e):
        """Approximate type of an expression in function (parameters and constructors only)"""
        if isinstance(e, ast.Name):
            a = f.annotation(e.id)
            if a is not None:
                return self.type_of_annotation(f.module, a)
            if e.id in f.params[0] or e.id in f.params[1]:
                return self.param_type_from_calls(f, e.id)
            sets = [n for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == e.id
                    and isinstance(n.ctx, ast.Store)]
            given = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign)
                     and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
            if len(sets) == len(given) == 1 and not any(isinstance(n, ast.Name) and n.id == e.id
                                                        for n in ast.walk(given[0])):
                return self.static_type(f, given[0])
            return None
        if isinstance(e, ast.Call):
            r = self.resolve(f.module, e.func)
            if r and r[0] == 'class':
                return ('cls', r[1])
            if r and r[0] == 'func':
                return self.type_of_annotation(r[1].module, r[1].returns)
            d = dotted(e.func)
            if d in ('set', 'frozenset'):
                return ('set', None)
            if d in ('list', 'sorted'):
                return ('list', None)
            if d and d.split('.')[-1] == 'defaultdict':
                return ('defaultdict',)
            if d == 'dict':
                return ('dict', None, None)
        if isinstance(e, ast.Attribute):
            base = self.static_type(f, e.value)
            if isinstance(e.value, ast.Name) and e.value.id == 'self' and f.cls:
                base = ('cls', f.cls)
            if base and base[0] == 'cls':
                return self.attr_type(base[1], e.attr)
        if isinstance(e, (ast.List, ast.ListComp)):
            return ('list', None)
        if isinstance(e, (ast.Set, ast.SetComp)):
            return ('set', None)
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return ('dict', None, None)
        if isinstance(e, ast.Constant):
            return {str: ('str',), bool: ('bool',), int: ('int',), float: ('float',)}.get(type(e.value))
        return None

    def param_type_from_calls(self, f, param):
        """Type of the unannotated parameter of constructor or function: what is passed by its callers"""
        if f.cls and f.name != '__init__':
            return None
        idx = f.params[0].index(param) - bool(f.cls) if param in f.params[0] else None
        for g in self.functions.values():
            for n in ast.walk(g.node):
                if isinstance(n, ast.Call):
                    r = self.resolve(g.module, n.func)
                    if r and (r[0] == 'class' and r[1] is f.cls or r[0] == 'func' and r[1] is f):
                        arg = None
                        if idx is not None and idx < len(n.args):
                            arg = n.args[idx]
                        for k in n.keywords:
                            if k.arg == param:
                                arg = k.value
                        if arg is not None:
                            t = self.static_type(g, arg)
                            if t:
                                return t
        return None

    # Anchors

    def func(self, qual):
        f = self.functions.get(qual)
        if not f:
            raise Vanished(f'anchor function {qual} not found')
        return f

    def cls(self, qual):
        c = self.classes.get(qual)
        if not c:
            raise Vanished(f'anchor class {qual} not found')
        return c

    def subclasses(self, cls):
        return [c for c in self.classes.values() if cls in c.mro()]


def top_statements(body):
    """Module level statements, including those under if/try"""
    for s in body:
        if isinstance(s, ast.If):
            yield from top_statements(s.body)
            yield from top_statements(s.orelse)
        elif isinstance(s, ast.Try):
            yield from top_statements(s.body)
            for h in s.handlers:
                yield from top_statements(h.body)
            yield from top_statements(s.orelse)
        else:
            yield s


def functional_enum(v):
    if isinstance(v, ast.Call) and (dotted(v.func) or '').split('.')[-1] in ('Enum', 'IntEnum') and len(v.args) == 2:
        a = v.args[1]
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            return a.value.replace(',', ' ').split()
        if isinstance(a, (ast.List, ast.Tuple)) and all(isinstance(x, ast.Constant) for x in a.elts):
            return [x.value for x in a.elts]
    return None


def loc(module, node):
    return f'{module.relpath}:{getattr(node, "lineno", 0)}'

"""
Ownership of objects and order of collections, for everything the queries can reach (C01, C02).

An abstract interpretation of the syntax trees. Values are sets of abstract objects: either allocated by the query itself
(one object for each allocating expression) or existing before it ("world": the dictionary, its tables, module and class
variables, default arguments, results of cached functions). Variables are followed in the order of statements, fields of
objects are not; functions are analysed for each kind of arguments they get, until nothing changes.

Writes to an object of the world are effects that outlive the query. Besides, each value may depend on the order of an
unordered collection (or another source that differs from process to process): the places it comes from are kept with it.
"""

import ast
import builtins

from .front import MUTATORS, FuncInfo, dotted, loc

NOTHING = frozenset()

LIST_WRITE = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'appendleft', 'extendleft', 'popleft',
              'rotate'}
SET_WRITE = {'add', 'update', 'discard', 'remove', 'pop', 'clear', 'intersection_update', 'difference_update',
             'symmetric_difference_update'}
DICT_WRITE = {'update', 'setdefault', 'pop', 'popitem', 'clear', 'move_to_end', 'subtract'}
WRITE = LIST_WRITE | SET_WRITE | DICT_WRITE | {'__setitem__', '__delitem__', '__iadd__', '__ior__', '__setattr__', '__delattr__'}
SCALAR = {'str', 'int', 'float', 'bool', 'bytes', 'none', 'enum', 'ext'}
ITERATORS = {'iter', 'map', 'filter', 'zip', 'reversed', 'enumerate', 'open'}

# external functions that change their argument
CHANGES = {'heapq.heappush': 0, 'heapq.heappop': 0, 'heapq.heapify': 0, 'heapq.heappushpop': 0, 'heapq.heapreplace': 0,
           'bisect.insort': 0, 'bisect.insort_left': 0, 'bisect.insort_right': 0, 'random.shuffle': 0, 'next': 0,
           'setattr': 0, 'delattr': 0, 'object.__setattr__': 0, 'operator.setitem': 0, 'operator.delitem': 0,
           'operator.iadd': 0, 'operator.ior': 0, 'list.append': 0, 'list.extend': 0, 'list.sort': 0, 'set.add': 0, 'set.update': 0,
           'dict.update': 0, 'dict.setdefault': 0}
# ...or the process
PROCESS = {'sys.setrecursionlimit', 'random.seed', 'locale.setlocale', 'os.putenv', 'os.unsetenv', 'os.chdir', 'os.umask',
           'os.remove', 'os.unlink', 'os.rename', 'os.mkdir', 'os.makedirs', 'gc.disable', 'gc.enable', 'gc.collect',
           'atexit.register', 'signal.signal', 'threading.Thread', 'globals'}
# differ from process to process
VARYING = {'id', 'hash', 'os.getpid', 'os.urandom', 'os.getenv', 'os.environ', 'os.listdir', 'os.scandir', 'os.getcwd',
           'os.cpu_count', 'uuid.uuid1', 'uuid.uuid4', 'locale.strxfrm', 'locale.strcoll', 'locale.getlocale',
           'locale.getdefaultlocale', 'locale.getpreferredencoding', 'sys.argv', 'sys.getrecursionlimit', 'sys.getrefcount',
           'sys.platform', 'sys.getsizeof', 'platform.system', 'platform.node', 'glob.glob', 'glob.iglob', 'object', 'os.name',
           'threading.get_ident', 'sys.maxsize', 'sys.hash_info', 'sys.flags', 'threading.active_count', 'gc.get_count',
           'tempfile.mktemp', 'psutil.cpu_percent', 'os.getloadavg'}
VARYING_MODULES = {'random', 'time', 'secrets', 'datetime', 'uuid', 'getpass', 'socket', 'resource'}
# give the same whatever the order of their argument
ORDERLESS = {'set', 'frozenset', 'len', 'any', 'all', 'sum', 'bool', 'collections.Counter', 'Counter', 'math.prod', 'math.fsum'}
# give the elements in order of the elements themselves (when there is no key)
SORTING = {'sorted', 'max', 'min', 'heapq.nlargest', 'heapq.nsmallest'}
LISTS = {'list', 'tuple', 'sorted', 'heapq.nlargest', 'heapq.nsmallest', 'collections.deque', 'deque'}
LAZY = {'iter', 'reversed', 'itertools.chain', 'itertools.chain.from_iterable', 'itertools.islice', 'itertools.takewhile',
        'itertools.dropwhile', 'itertools.filterfalse', 'filter', 'enumerate', 'zip', 'itertools.zip_longest', 'itertools.product',
        'itertools.groupby', 'itertools.cycle', 'itertools.tee', 'itertools.permutations', 'itertools.combinations', 'map',
        'itertools.starmap', 'itertools.accumulate', 'itertools.count', 'itertools.repeat', 'range', 'heapq.merge', 'itertools.pairwise'}
CACHES = {'lru_cache', 'cache', 'cached_property', 'memoize', 'singledispatch'}


class Obj:
    """abstract object"""
    table = {}

    def __init__(self, key, kind, node=None, type=None, func=None):
        self.key = key
        self.kind = kind        # list set dict iter tuple inst func class world
        self.node = node
        self.type = type        # world: type (see front); inst: ClassInfo; class: ClassInfo
        self.func = func        # func: FuncInfo
        self.frame = None       # func: where it is defined
        self.bound = NOTHING    # func: self
        self.fields = {}        # name -> AV
        self.order = NOTHING    # where its order comes from, if it is arbitrary
        self.sets = False       # world: unordered
        self.defaults = False   # world: creates missing keys
        self.once = None        # world: an iterator
        self.origin = None      # world: what it is
        self.inner = False      # world: collection of unordered collections

    def __repr__(self):
        return f'<{self.kind} {self.origin or self.type or self.func or getattr(self.node, "lineno", "")}>'


class AV:
    """abstract value: objects it may be, and the places its value arbitrarily depends on"""
    __slots__ = ('objs', 'taint')

    def __init__(self, objs=NOTHING, taint=NOTHING):
        self.objs = objs
        self.taint = taint

    def join(self, o):
        if o is None or self is o:
            return self
        if o.objs <= self.objs and o.taint <= self.taint:
            return self
        return AV(self.objs | o.objs, self.taint | o.taint)

    def tainted(self, t):
        return AV(self.objs, self.taint | t) if t - self.taint else self


SCALAR_AV = AV()


def join(avs):
    res = SCALAR_AV
    for a in avs:
        res = res.join(a)
    return res


class Frame:
    """function for certain arguments"""

    def __init__(self, func, outer, args):
        self.func = func
        self.outer = outer
        self.args = args
        self.cells = {}         # name -> everything assigned to it
        self.result = SCALAR_AV
        self.elements = SCALAR_AV
        self.order = NOTHING
        self.callers = ()


class Finding:
    def __init__(self, kind, func, node, what, detail):
        self.kind = kind
        self.func = func
        self.node = node
        self.what = what
        self.detail = detail


class Heap:
    def __init__(self, prog):
        self.prog = prog
        self.objects = {}
        self.frames = {}
        self.contexts = {}
        self.changed = False
        self.findings = {}      # (node, what) -> Finding
        self.writes = {}        # node -> (func, what, verdict)
        self.unordered = {}     # node -> (func, what)
        self.sources = {}       # origin -> text
        self.round = 0
        self.done = set()
        self.stack = []
        self.scan()

    # -- what the loading code makes

    def scan(self):
        """attributes that hold sets, dictionaries with defaults and iterators"""
        self.set_attrs, self.default_attrs, self.iter_attrs = set(), set(), {}
        self.read_as = self.directives()
        for f in list(self.prog.functions.values()):
            if f.qual.startswith('spec.'):
                continue
            for n in ast.walk(f.node):
                pairs = []
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and f.cls:
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                            pairs.append((f.cls, t.attr, n.value))
                elif isinstance(n, ast.Call):
                    r = self.prog.resolve(f.module, n.func)
                    c = r[1] if r and r[0] == 'class' else None
                    if c and c.is_dataclass:
                        names = [x[0] for x in c.all_fields()]
                        pairs += [(c, nm, v) for nm, v in zip(names, n.args) if not isinstance(v, ast.Starred)]
                        pairs += [(c, k.arg, k.value) for k in n.keywords if k.arg]
                    elif isinstance(n.func, ast.Name) and n.func.id == 'kind_class' or c is None and isinstance(n.func, ast.Name):
                        pairs += [(None, k.arg, k.value) for k in n.keywords if k.arg]
                for c, a, v in pairs:
                    for x in self.given(f, v):
                        k = self.made(f, x)
                        if k == 'set':
                            self.set_attrs.add((c, a))
                        elif k == 'defaultdict':
                            self.default_attrs.add((c, a))
                        elif k == 'iter' and c is not None:
                            self.iter_attrs[c, a] = (f, x)

    def directives(self):
        """settings that are read as sets, or lists of them"""
        res = {}

        def unordered(x):
            return isinstance(x, (ast.Set, ast.SetComp)) or isinstance(x, ast.Call) and dotted(x.func) in ('set', 'frozenset')
        for f in self.prog.functions.values():
            if f.module.short != 'readers.aff':
                continue
            for s in ast.walk(f.node):
                if not isinstance(s, ast.If):
                    continue
                names = {x.value for x in ast.walk(s.test) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
                for r in s.body:
                    if isinstance(r, ast.Return) and r.value is not None:
                        if unordered(r.value):
                            res.update({n: 'sets' for n in names})
                        elif isinstance(r.value, ast.ListComp) and unordered(r.value.elt):
                            res.update({n: 'inner' for n in names})
        return res

    def given(self, f, v, depth=0):
        """expressions that the value may come from"""
        if isinstance(v, ast.IfExp):
            return self.given(f, v.body, depth) + self.given(f, v.orelse, depth)
        if isinstance(v, ast.BoolOp):
            return [y for x in v.values for y in self.given(f, x, depth)]
        if isinstance(v, ast.Name) and depth < 3:
            res = []
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in n.targets) and n.value is not v:
                    res += self.given(f, n.value, depth + 1)
            return res or [v]
        return [v]

    def made(self, f, x):
        if isinstance(x, (ast.Set, ast.SetComp)):
            return 'set'
        if isinstance(x, ast.GeneratorExp):
            return 'iter'
        if isinstance(x, ast.Call):
            d = dotted(x.func) or ''
            last = d.split('.')[-1]
            if last in ('set', 'frozenset'):
                return 'set'
            if last == 'defaultdict':
                return 'defaultdict'
            if d in ITERATORS or d.startswith('itertools.'):
                return 'iter'
            r = self.prog.resolve(f.module, x.func)
            if r is None and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and \
                    x.func.value.id == 'self' and f.cls:
                m = f.cls.method(x.func.attr)
                r = ('func', m) if m else None
            if r and r[0] == 'func' and r[1].is_generator:
                return 'iter'
        return None

    # -- objects

    def obj(self, node, kind, type=None, func=None, tag=None):
        key = (id(node), kind, tag, id(type) if type is not None else None)
        o = self.objects.get(key)
        if o is None:
            o = self.objects[key] = Obj(key, kind, node, type, func)
        return o

    def world(self, type, origin, sets=False, defaults=False, once=None, kind=None, inner=False):
        """object that exists before the query"""
        key = ('world', repr(type), sets, defaults, once is not None, kind, inner)
        o = self.objects.get(key)
        if o is None:
            o = self.objects[key] = Obj(key, 'world', type=type)
            o.sets, o.defaults, o.once, o.origin, o.inner = sets, defaults, once, origin, inner
        return o

    def world_av(self, type, origin, **kw):
        """value of the type that exists before the query"""
        objs = set()
        for t in self.types(type):
            if t is not None and t[0] in SCALAR:
                continue
            objs.add(self.world(t, origin, **kw))
        return AV(frozenset(objs))

    def types(self, t):
        if t is None:
            return [None]
        if t[0] == 'opt':
            return self.types(t[1])
        if t[0] == 'union':
            return [y for x in t[1] for y in self.types(x)]
        return [t]

    def set_field(self, o, name, av):
        old = o.fields.get(name)
        new = av if old is None else old.join(av)
        if new is not old:
            o.fields[name] = new
            self.changed = True

    def set_order(self, o, taint):
        if taint - o.order:
            o.order = o.order | taint
            self.changed = True

    def element_type(self, t):
        if t is None:
            return None
        if t[0] in ('list', 'set', 'iter', 'coll'):
            return t[1]
        if t[0] == 'dict':
            return t[1]
        if t[0] == 'tuple':
            return ('union', tuple(t[1])) if t[1] else None
        return None

    def elements(self, av, node=None):
        """values got by going through; (elements, where the order comes from)"""
        res, order = AV(NOTHING, av.taint), NOTHING
        for o in av.objs:
            if o.kind == 'world':
                if o.once is not None and node is not None:
                    self.effect(node, f'goes through {o.origin}, an iterator that is made once ({self.src(o.once[0], o.once[1])})', 'bad')
                if o.type and o.type[0] == 'cls':
                    m = o.type[1].method('__iter__')
                    if m:
                        res = res.join(self.call_func(m, AV(frozenset([o])), [], {}, node))
                    elif o.type[1].is_dataclass:
                        continue
                else:
                    res = res.join(self.world_av(self.element_type(o.type), f'element of {o.origin}', sets=o.inner))
                if o.sets:
                    order |= self.arbitrary(node, f'order of the set {o.origin}')
            elif o.kind in ('list', 'set', 'iter', 'dict', 'tuple'):
                res = res.join(o.fields.get('keys' if o.kind == 'dict' else '*'))
                if o.kind == 'tuple':
                    res = join([res] + [v for k, v in o.fields.items() if isinstance(k, int)])
                order |= o.order
                if o.kind == 'set':
                    order |= self.arbitrary(node, 'order of the set ' + self.text(o.node))
            elif o.kind == 'inst':
                m = o.type.method('__iter__')
                if m:
                    got = self.call_func(m, AV(frozenset([o])), [], {}, node)
                    e, od = self.elements(AV(frozenset(x for x in got.objs if x.kind != 'inst'), got.taint))
                    res, order = res.join(e), order | od
        return res, order

    # -- reports

    def text(self, node):
        try:
            t = ast.unparse(node)
        except Exception:       # synthesised
            t = '?'
        return t if len(t) < 90 else t[:87] + '...'

    def src(self, func, node):
        return f'{loc(func.module, node)} `{self.text(node)}`'

    def effect(self, node, what, verdict):
        f = self.frame.func
        key = (id(node), what if verdict != 'ok' else '')
        rank = {'ok': 0, 'unknown': 1, 'bad': 2}
        old = self.writes.get(id(node))
        if old is None or rank[verdict] > rank[old[3]]:
            self.writes[id(node)] = (f, node, what, verdict, [x.func.qual for x in self.stack[-8:]])

    def arbitrary(self, node, what):
        if node is None:
            return NOTHING
        f = self.frame.func
        key = f'{loc(f.module, node)} {what} in {f.qual}'
        if key not in self.sources:
            self.sources[key] = (f, node, what)
        return frozenset([key])

    def wrote(self, av, node, what):
        """object is changed"""
        bad = [o for o in av.objs if o.kind in ('world', 'class') or o.kind == 'func']
        bad = [o for o in bad if not (o.type and o.type[0] in SCALAR if o.kind == 'world' else False)]
        if bad:
            o = bad[0]
            sure = o.kind != 'world' or o.type is not None or True
            self.effect(node, f'{what}: changes {o.origin or o.type or "function"}, which outlives the query', 'bad' if sure else 'unknown')
        else:
            self.effect(node, what, 'ok')

    # -- running

    def run(self, entries):
        """entries: (function, self type)"""
        results = {}
        for self.round in range(40):
            self.changed = False
            self.done = set()
            for f, types in entries:
                pos = f.params[0]
                args = []
                for p in pos:
                    if p == 'self':
                        args.append(self.world_av(('cls', f.cls), 'dictionary' if f.cls.name == 'Dictionary' else f.cls.name))
                    else:
                        args.append(SCALAR_AV)
                frame = self.enter(f, None, dict(zip(pos, args)))
                results[f.qual] = frame
            if not self.changed:
                break
        else:
            raise RuntimeError('no fixed point')
        return results

    def enter(self, f, outer, args):
        """analyses the function for arguments"""
        key = (id(f.node), id(outer), tuple(sorted((k, frozenset(id(o) for o in v.objs), bool(v.taint)) for k, v in args.items())))
        frame = self.frames.get(key)
        if frame is None:
            same = self.contexts.setdefault((id(f.node), id(outer)), [])
            if len(same) >= 24:
                frame = same[-1]
            else:
                frame = self.frames[key] = Frame(f, outer, args)
                same.append(frame)
                self.changed = True
        for k, v in args.items():
            self.bind(frame, k, v)
        if frame in self.done or len(self.stack) > 80:
            return frame
        self.done.add(frame)
        saved = tuple(getattr(self, x, None) for x in ('frame', 'env', 'context', 'guards', 'loops', 'carry'))
        self.frame, self.env, self.context, self.guards = frame, {k: frame.cells[k] for k in args}, [], []
        self.loops, self.carry = [], [set()]
        self.stack.append(frame)
        try:
            if f.is_lambda:
                self.give(self.eval(f.node.body))
            else:
                self.block(f.node.body)
        finally:
            self.stack.pop()
            self.frame, self.env, self.context, self.guards, self.loops, self.carry = saved
        return frame

    def bind(self, frame, name, av):
        old = frame.cells.get(name)
        new = av if old is None else old.join(av)
        if new is not old:
            frame.cells[name] = new
            self.changed = True

    def give(self, av):
        """returned"""
        t = self.flow()
        new = self.frame.result.join(av.tainted(t))
        if new is not self.frame.result:
            self.frame.result = new
            self.changed = True

    def gives(self, av):
        """yielded"""
        new = self.frame.elements.join(av)
        if new is not self.frame.elements:
            self.frame.elements = new
            self.changed = True
        t = self.flow()
        if t - self.frame.order:
            self.frame.order = self.frame.order | t
            self.changed = True

    def flow(self):
        """what the very execution of this place depends on"""
        res = NOTHING
        for kind, t in self.context:
            res |= t
        return res

    def choice(self):
        """...not counting loops: each element is met anyway"""
        res = NOTHING
        for kind, t in self.context:
            if kind == 'if':
                res |= t
        return res

    # -- statements

    def block(self, stmts):
        """-> True if the end is not reached"""
        n = len(self.guards)
        m = len(self.context)
        over = False
        for s in stmts:
            if self.stmt(s):
                over = True
                break
        del self.guards[n:]
        del self.context[m:]
        return over

    def stmt(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m:
            return m(s)
        for n in ast.iter_child_nodes(s):
            if isinstance(n, ast.expr):
                self.eval(n)
        return False

    def s_Expr(self, s):
        self.eval(s.value)

    def s_Return(self, s):
        av = self.eval(s.value) if s.value else SCALAR_AV
        if isinstance(s.value, ast.Constant) or s.value is None:
            # found anyway, whatever the order
            t = self.choice()
            new = self.frame.result.join(AV(NOTHING, t))
            if new is not self.frame.result:
                self.frame.result = new
                self.changed = True
            if t - self.frame.order:
                self.frame.order |= t
                self.changed = True
        else:
            self.give(av)
        return True

    def s_Raise(self, s):
        for x in (s.exc, s.cause):
            if x:
                self.eval(x)
        return True

    def s_Break(self, s):
        if self.loops:
            self.loops[-1] |= self.choice()
        return True

    def s_Continue(self, s):
        return True

    def s_Pass(self, s):
        return False

    s_Nonlocal = s_Import = s_ImportFrom = s_Pass

    def s_Global(self, s):
        for n in s.names:
            self.env['global ' + n] = SCALAR_AV

    def s_FunctionDef(self, s):
        self.assign_name(s.name, self.function(s))

    def s_ClassDef(self, s):
        return False

    def function(self, node):
        o = self.obj(node, 'func', tag=id(self.frame))
        if o.func is None:
            outer = self.frame.func
            o.func = FuncInfo(getattr(node, 'name', '<lambda>'), f'{outer.qual}.{getattr(node, "name", "<lambda>")}', node,
                              outer.module, cls=outer.cls, outer=outer)
            o.frame = self.frame
        return AV(frozenset([o]))

    def s_Assign(self, s):
        av = self.eval(s.value)
        for t in s.targets:
            self.assign(t, av, s.value)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value), s.value)

    def s_AugAssign(self, s):
        v = self.eval(s.value)
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load(t.id)
            muts = [o for o in old.objs if o.kind in ('list', 'set', 'dict', 'world')]
            if muts:
                known = AV(frozenset(o for o in muts if o.kind != 'world' or o.type is not None))
                if known.objs:
                    self.wrote(known, s, self.text(s))
                elif not self.plain(t.id):
                    self.effect(s, self.text(s) + ': may change ' + muts[0].origin, 'unknown')
                self.absorb(known, v, s)
            res = AV(old.objs, old.taint | v.taint) if muts and len(muts) == len(old.objs) else old.join(v)
            if self.in_loop() and not self.summing(s.value, v):
                res = res.tainted(self.flow())
            else:
                res = res.tainted(self.choice())
            self.assign_name(t.id, res, s)
        elif isinstance(t, ast.Attribute):
            self.wrote(self.eval(t.value), s, self.text(s))
            for o in self.eval(t.value).objs:
                if o.kind == 'inst':
                    self.set_field(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.wrote(self.eval(t.value), s, self.text(s))
            self.eval(t.slice)

    def plain(self, name):
        """text or number, by its initial value"""
        return any(isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Constant) and any(
            isinstance(t, ast.Name) and t.id == name for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))
            for n in ast.walk(self.frame.func.node))

    def in_loop(self):
        return any(k == 'loop' and t for k, t in self.context)

    def summing(self, e, v):
        """number is added (the order is not important)"""
        if isinstance(e, ast.Constant):
            return not isinstance(e.value, str)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('len', 'int', 'max', 'min', 'abs', 'sum'):
            return True
        if isinstance(e, ast.Name) and not v.objs:
            return True
        return isinstance(e, (ast.BinOp, ast.Compare, ast.Call)) and not any(isinstance(x, ast.Constant) and isinstance(x.value, str) or
                                                                            isinstance(x, ast.JoinedStr) for x in ast.walk(e))

    def absorb(self, av, v, node):
        """elements of v are added to collections"""
        el, order = self.elements(v)
        for o in av.objs:
            if o.kind in ('list', 'set', 'dict', 'iter'):
                self.set_field(o, '*', el)
                if o.kind != 'set':
                    self.set_order(o, order | self.flow())

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, (ast.Attribute, ast.Subscript)):
                self.wrote(self.eval(t.value), s, self.text(s))

    def assign(self, t, av, value=None):
        if isinstance(t, ast.Name):
            if not (isinstance(value, ast.Constant) or value is None) and self.in_loop() and not self.accumulated(t.id, value):
                self.carry[-1].add(t.id)
            self.assign_name(t.id, av.tainted(self.choice()))
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and \
                not any(isinstance(x, ast.Starred) for x in value.elts + t.elts) else None
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    o = self.obj(x, 'list')
                    self.set_field(o, '*', self.elements(av)[0])
                    self.assign(x.value, AV(frozenset([o]), av.taint))
                elif parts:
                    self.assign(x, self.eval(parts[i]), parts[i])
                else:
                    self.assign(x, self.component(av, i), ast.Name(id='?', ctx=ast.Load()))
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            self.wrote(base, t, self.text(t) + ' = ...')
            for o in base.objs:
                if o.kind == 'inst':
                    self.set_field(o, t.attr, av.tainted(self.flow()))
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            key = self.eval(t.slice)
            self.wrote(base, t, self.text(t) + ' = ...')
            for o in base.objs:
                if o.kind == 'dict':
                    self.set_field(o, '*', av)
                    self.set_field(o, 'keys', key)
                    self.set_order(o, self.flow())
                elif o.kind == 'list':
                    self.set_field(o, '*', av)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, av, value)

    def accumulated(self, name, value):
        """max/min and the like don't depend on the order"""
        mine = lambda x: isinstance(x, ast.Name) and x.id == name
        if isinstance(value, ast.Call) and isinstance(value.func, ast.Name) and value.func.id in ('max', 'min'):
            return any(mine(x) for x in value.args)
        if isinstance(value, ast.BoolOp):
            return any(mine(x) for x in value.values)
        return isinstance(value, ast.BinOp) and (mine(value.left) or mine(value.right)) and self.summing(value, SCALAR_AV)

    def component(self, av, i):
        res = AV(NOTHING, av.taint)
        for o in av.objs:
            if o.kind == 'tuple':
                x = o.fields.get(i)
                res = res.join(x if x is not None else o.fields.get('*')) if (x is not None or '*' in o.fields) else res
            elif o.kind == 'world' and o.type and o.type[0] == 'tuple':
                res = res.join(self.world_av(o.type[1][i] if i < len(o.type[1]) else None, f'part of {o.origin}'))
            else:
                e, order = self.elements(AV(frozenset([o])))
                res = res.join(e).tainted(order)
        return res

    def assign_name(self, name, av, node=None):
        if 'global ' + name in self.env:
            self.effect(node or self.frame.func.node, f'global variable {name} is assigned', 'bad')
            return
        self.env[name] = av
        self.bind(self.frame, name, av)
        # a variable of an outer function
        for n in ast.walk(self.frame.func.node) if not self.frame.func.is_lambda else ():
            if isinstance(n, ast.Nonlocal) and name in n.names:
                fr = self.frame.outer
                while fr is not None:
                    if name in fr.cells:
                        self.bind(fr, name, av)
                        break
                    fr = fr.outer
                break

    def fork(self, *branches):
        """runs each branch from the same state, joins"""
        start = self.env
        ends = []
        for b in branches:
            self.env = dict(start)
            if not b():
                ends.append(self.env)
        if not ends:
            self.env = start
            return True
        self.env = self.merge(ends)
        return False

    def merge(self, envs):
        res = dict(envs[0])
        for e in envs[1:]:
            for k, v in e.items():
                res[k] = res[k].join(v) if k in res else v
        return res

    def s_If(self, s):
        c = self.eval(s.test)
        taint = c.taint

        def branch(stmts, test):
            def go():
                self.context.append(('if', taint))
                self.guards.append(test)
                over = self.block(stmts)
                self.guards.pop()
                self.context.pop()
                return over
            return go
        n = len(self.guards)
        over = [False, False]

        def first():
            over[0] = branch(s.body, s.test)()
            return over[0]

        def second():
            over[1] = branch(s.orelse, s.test)()
            return over[1]
        res = self.fork(first, second)
        if over[0] != over[1]:
            # the rest depends on the condition
            self.guards.append(s.test)
            if taint:
                self.context.append(('if', taint))
        return res

    def s_For(self, s):
        it = self.eval(s.iter)
        el, order = self.elements(it, s.iter)
        self.note(s.iter, it, order)
        left = NOTHING
        for _ in range(5):
            before = self.env
            self.env = dict(before)
            self.context.append(('loop', order))
            self.context.append(('if', left))
            self.guards.append(s.iter)
            self.loops.append(NOTHING)
            self.carry.append({x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)})
            self.assign_element(s.target, el)
            self.block(s.body)
            self.guards.pop()
            self.context.pop()
            self.context.pop()
            new = self.loops.pop() - left
            left |= new
            # what is left of the last element, for the next one and after the loop
            for name in self.carry.pop():
                if order and name in self.env:
                    self.env[name] = self.env[name].tainted(order)
            self.env = self.merge([before, self.env])
            if not new and all(k in before and self.env[k] is before[k] for k in self.env):
                break
        if left:
            self.context.append(('if', left))
        if s.orelse:
            self.block(s.orelse)
        return False

    def assign_element(self, t, el):
        """loop variable: an element is an element, whatever the order"""
        saved, self.context = self.context, []
        self.assign(t, el, ast.Name(id='?', ctx=ast.Load()))
        self.context = saved

    def s_While(self, s):
        left = NOTHING
        for _ in range(5):
            before = self.env
            c = self.eval(s.test)
            self.env = dict(before)
            self.context.append(('if', c.taint | left))
            self.guards.append(s.test)
            self.loops.append(NOTHING)
            self.block(s.body)
            self.guards.pop()
            self.context.pop()
            new = (self.loops.pop() | c.taint) - left
            left |= new
            self.env = self.merge([before, self.env])
            if not new and all(k in before and self.env[k] is before[k] for k in self.env):
                break
        if left:
            self.context.append(('if', left))
        if s.orelse:
            self.block(s.orelse)
        return False

    def s_With(self, s):
        for i in s.items:
            av = self.eval(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, av)
        return self.block(s.body)

    def s_Try(self, s):
        over = self.fork(lambda: self.block(s.body), *[(lambda h=h: self.block(h.body)) for h in s.handlers])
        if s.orelse:
            self.block(s.orelse)
        if s.finalbody:
            self.block(s.finalbody)
        return over

    def s_Match(self, s):
        self.eval(s.subject)
        return self.fork(*[(lambda c=c: self.block(c.body)) for c in s.cases], lambda: False)

    # -- expressions

    def eval(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m:
            return m(e)
        res = NOTHING
        for n in ast.iter_child_nodes(e):
            if isinstance(n, ast.expr):
                res |= self.eval(n).taint
        return AV(NOTHING, res)

    def e_Constant(self, e):
        return SCALAR_AV

    def e_Name(self, e):
        return self.load(e.id, e)

    def load(self, name, node=None):
        if name in self.env:
            return self.env[name]
        fr = self.frame
        while fr is not None:
            if name in fr.cells and ('global ' + name) not in self.env:
                return fr.cells[name]
            fr = fr.outer
        return self.binding(self.prog.lookup(self.frame.func.module, name), name, node)

    def binding(self, b, name, node=None):
        if b is None:
            if name in VARYING and node is not None:
                return AV(NOTHING, self.arbitrary(node, name))
            return SCALAR_AV
        if b[0] == 'func':
            o = self.obj(b[1].node, 'func', tag='global')
            o.func = b[1]
            return AV(frozenset([o]))
        if b[0] == 'class':
            o = self.obj(b[1].node, 'class', type=b[1])
            o.origin = f'class {b[1].name}'
            return AV(frozenset([o]))
        if b[0] == 'const':
            return self.constant(b[1], b[2], name)
        return SCALAR_AV

    def constant(self, e, module, name):
        """module or class variable"""
        kind = None
        once = None
        sets = isinstance(e, (ast.Set, ast.SetComp)) or isinstance(e, ast.Call) and dotted(e.func) in ('set', 'frozenset')
        if isinstance(e, (ast.List, ast.ListComp)) or isinstance(e, ast.Call) and dotted(e.func) in ('list', 'sorted'):
            kind = ('list', None)
        elif sets:
            kind = ('set', None)
        elif isinstance(e, (ast.Dict, ast.DictComp)) or isinstance(e, ast.Call) and dotted(e.func) == 'dict':
            kind = ('dict', None, None)
        elif isinstance(e, ast.Call) and (dotted(e.func) or '').split('.')[-1] == 'defaultdict':
            return AV(frozenset([self.world(('dict', None, None), f'variable {name}', defaults=True)]))
        elif isinstance(e, ast.GeneratorExp) or isinstance(e, ast.Call) and dotted(e.func) in ITERATORS:
            kind = ('iter', None)
            once = (self.frame.func, e)
        elif isinstance(e, ast.Call):
            r = self.prog.resolve(module, e.func)
            if r and r[0] == 'class':
                kind = ('cls', r[1])
        if kind is None:
            return SCALAR_AV
        return AV(frozenset([self.world(kind, f'variable {name}', sets=sets, once=once)]))

    def e_Attribute(self, e):
        r = None
        if dotted(e) is not None and dotted(e).split('.')[0] not in self.env:
            r = self.prog.resolve(self.frame.func.module, e)
        if r is not None:
            if r[0] == 'ext':
                if r[1] in VARYING:
                    return AV(NOTHING, self.arbitrary(e, r[1]))
                return SCALAR_AV
            if r[0] in ('func', 'class', 'const'):
                return self.binding(r, e.attr, e)
            return SCALAR_AV
        return self.attribute(self.eval(e.value), e.attr, e)

    def attribute(self, base, name, e):
        res = AV(NOTHING, base.taint)
        for o in base.objs:
            if o.kind == 'world':
                if name == '__dict__':
                    res = res.join(AV(frozenset([o])))
                elif o.type and o.type[0] == 'cls':
                    res = res.join(self.world_attr(o, o.type[1], name, e))
                elif o.type is None and name not in WRITE:
                    res = res.join(self.world_av(None, f'{o.origin}.{name}'))
            elif o.kind == 'inst':
                if name == '__dict__':
                    res = res.join(AV(frozenset([o])))
                    continue
                m = o.type.method(name)
                if m:
                    res = res.join(self.method(m, o, e))
                    continue
                if name in o.fields:
                    res = res.join(o.fields[name])
                elif o.type.const(name):
                    c = o.type.const(name)
                    res = res.join(self.constant(c[1], c[0].module, f'{c[0].name}.{name}'))
            elif o.kind == 'class':
                m = o.type.method(name)
                if m:
                    f = self.obj(e, 'func', tag=('class', id(m)))
                    f.func = m
                    res = res.join(AV(frozenset([f])))
                else:
                    c = o.type.const(name)
                    if c:
                        res = res.join(self.constant(c[1], c[0].module, f'{c[0].name}.{name}'))
        return res

    def method(self, m, o, e):
        if m.property:
            return self.shared(m, self.call_func(m, AV(frozenset([o])), [], {}, e), o, e)
        f = self.obj(m.node, 'func', tag=('bound', id(o)))
        f.func = m
        f.bound = NOTHING if m.static else frozenset([o])
        return AV(frozenset([f]))

    def world_attr(self, o, cls, name, e):
        ms = []
        for c in self.prog.subclasses(cls) or [cls]:
            if c.qual.startswith('spec.'):
                continue
            m = c.method(name)
            if m and m not in ms:
                ms.append(m)
        if ms:
            return join([self.method(m, o, e) for m in ms])
        c = cls.const(name)
        if c and not cls.annotation(name):
            return self.constant(c[1], c[0].module, f'{c[0].name}.{name}')
        t = self.prog.attr_type(cls, name)
        owners = [*cls.mro(), *self.prog.subclasses(cls)]
        kw = {}
        if any((c, name) in self.set_attrs for c in [*owners, None]) and (t is None or any(x and x[0] == 'set' for x in self.types(t))):
            kw['sets'] = True
        if any((c, name) in self.default_attrs for c in owners):
            kw['defaults'] = True
            t = t if t and t[0] == 'dict' else ('dict', None, None)
        if cls.name == 'Aff' and name in self.read_as:
            kw[self.read_as[name]] = True
        once = next((self.iter_attrs[c, name] for c in owners if (c, name) in self.iter_attrs), None)
        if once:
            kw['once'] = once
            t = ('iter', None)
        return self.world_av(t, f'{cls.name}.{name}', **kw)

    def e_Subscript(self, e):
        base = self.eval(e.value)
        if isinstance(e.slice, ast.Slice):
            t = join([self.eval(x) for x in (e.slice.lower, e.slice.upper, e.slice.step) if x]).taint
            objs = [o for o in base.objs if o.kind in ('list', 'tuple', 'world') and not (
                o.kind == 'world' and o.type and o.type[0] not in ('list', 'tuple', 'coll'))]
            if not objs:
                return AV(NOTHING, base.taint | t)
            el, order = self.elements(AV(frozenset(objs)))
            r = self.obj(e, 'list')
            # a part of arbitrary order has arbitrary elements
            self.set_field(r, '*', el.tainted(order))
            self.set_order(r, order)
            return AV(frozenset([r]), base.taint | t)
        k = self.eval(e.slice)
        res = AV(NOTHING, base.taint | k.taint)
        for o in base.objs:
            if o.kind == 'world' and o.defaults and isinstance(e.ctx, ast.Load):
                self.default_read(o, e)
            if o.kind == 'world' and o.type and o.type[0] == 'dict':
                res = res.join(self.world_av(o.type[2], f'value of {o.origin}'))
            elif o.kind == 'dict':
                res = res.join(o.fields.get('*'))
            elif o.kind == 'tuple' and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
                res = res.join(self.component(AV(frozenset([o])), e.slice.value))
            elif o.kind == 'world' and o.type and o.type[0] == 'cls':
                m = o.type[1].method('__getitem__')
                if m:
                    res = res.join(self.call_func(m, AV(frozenset([o])), [k], {}, e))
            else:
                el, order = self.elements(AV(frozenset([o])))
                res = res.join(el).tainted(order)
        return res

    def default_read(self, o, e):
        """reading a missing key creates it"""
        cont, key = self.text(e.value), self.text(e.slice)
        verdict = 'bad'
        for g in self.guards:
            for n in ast.walk(g):
                if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and \
                        self.text(n.comparators[0]).startswith(cont):
                    verdict = 'ok' if self.text(n.left) == key else min(verdict, 'unknown', key=('ok', 'unknown', 'bad').index)
            if cont.split('.')[-1] in self.text(g):
                verdict = min(verdict, 'unknown' if self.text(g) != cont else 'ok', key=('ok', 'unknown', 'bad').index)
        self.effect(e, f'{self.text(e)}: reading a missing key of {o.origin} creates it', verdict)

    def e_Starred(self, e):
        return self.eval(e.value)

    def collection(self, e, kind, elts):
        o = self.obj(e, kind)
        taint = NOTHING
        for i, x in enumerate(elts):
            av = self.eval(x)
            if isinstance(x, ast.Starred):
                el, order = self.elements(av, x)
                self.note(x, av, order if kind != 'set' else NOTHING)
                self.set_field(o, '*', el)
                if kind != 'set':
                    self.set_order(o, order)
            elif kind == 'tuple' and not any(isinstance(y, ast.Starred) for y in elts[:i]):
                self.set_field(o, i, av)
                taint |= av.taint
            else:
                self.set_field(o, '*', av)
        return AV(frozenset([o]), taint if kind == 'tuple' else NOTHING)

    def e_List(self, e):
        return self.collection(e, 'list', e.elts)

    def e_Tuple(self, e):
        return self.collection(e, 'tuple', e.elts)

    def e_Set(self, e):
        return self.collection(e, 'set', e.elts)

    def e_Dict(self, e):
        o = self.obj(e, 'dict')
        for k, v in zip(e.keys, e.values):
            if k is None:
                av = self.eval(v)
                for x in av.objs:
                    if x.kind == 'dict':
                        self.set_field(o, '*', x.fields.get('*', SCALAR_AV))
                        self.set_order(o, x.order)
            else:
                self.set_field(o, 'keys', self.eval(k))
                self.set_field(o, '*', self.eval(v))
        return AV(frozenset([o]))

    def comprehension(self, e, kind, *vals):
        saved = dict(self.env)
        order = NOTHING
        n = len(self.guards)
        for g in e.generators:
            it = self.eval(g.iter)
            el, od = self.elements(it, g.iter)
            order |= od
            self.guards.append(g.iter)
            if od and kind != 'set':
                self.note(g.iter, it, od)
            self.assign_element(g.target, el)
            for c in g.ifs:
                order |= NOTHING
                t = self.eval(c).taint
                if t:
                    order |= t
                self.guards.append(c)
        res = [self.eval(v) for v in vals]
        del self.guards[n:]
        self.env = saved
        o = self.obj(e, kind)
        if kind == 'dict':
            self.set_field(o, 'keys', res[0])
            self.set_field(o, '*', res[1])
        else:
            self.set_field(o, '*', res[0])
        if kind != 'set':
            self.set_order(o, order)
        return AV(frozenset([o]))

    def e_ListComp(self, e):
        return self.comprehension(e, 'list', e.elt)

    def e_SetComp(self, e):
        return self.comprehension(e, 'set', e.elt)

    def e_GeneratorExp(self, e):
        return self.comprehension(e, 'iter', e.elt)

    def e_DictComp(self, e):
        return self.comprehension(e, 'dict', e.key, e.value)

    def e_Lambda(self, e):
        return self.function(e)

    def e_IfExp(self, e):
        c = self.eval(e.test)
        self.guards.append(e.test)
        a, b = self.eval(e.body), self.eval(e.orelse)
        self.guards.pop()
        return a.join(b).tainted(c.taint)

    def e_BoolOp(self, e):
        n = len(self.guards)
        res = []
        for v in e.values:
            res.append(self.eval(v))
            self.guards.append(v)
        del self.guards[n:]
        return join(res)

    def e_NamedExpr(self, e):
        av = self.eval(e.value)
        self.assign(e.target, av, e.value)
        return av

    def e_BinOp(self, e):
        a, b = self.eval(e.left), self.eval(e.right)
        objs = [o for o in a.objs | b.objs if o.kind in ('list', 'set', 'tuple', 'dict') or o.kind == 'world' and o.type and
                o.type[0] in ('list', 'set', 'dict', 'tuple')]
        taint = a.taint | b.taint
        if not objs:
            return AV(NOTHING, taint)
        kinds = {o.kind if o.kind != 'world' else o.type[0] for o in objs}
        kind = 'set' if 'set' in kinds or isinstance(e.op, (ast.BitOr, ast.BitAnd)) and 'dict' not in kinds else \
            'tuple' if kinds == {'tuple'} else 'dict' if 'dict' in kinds else 'list'
        o = self.obj(e, kind)
        el, order = self.elements(AV(frozenset(objs)))
        self.set_field(o, '*', el)
        if kind != 'set':
            self.set_order(o, order)
        return AV(frozenset([o]), taint)

    def e_Compare(self, e):
        avs = [self.eval(x) for x in [e.left, *e.comparators]]
        taint = NOTHING
        for av in avs:
            taint |= av.taint
        # comparing lists of arbitrary order
        for op, av in zip([None, *e.ops], avs):
            if not isinstance(op, (ast.In, ast.NotIn, ast.Is, ast.IsNot)):
                for o in av.objs:
                    if o.kind in ('list', 'tuple'):
                        taint |= o.order
            elif isinstance(op, (ast.In, ast.NotIn)):
                self.elements(AV(frozenset(o for o in av.objs if o.kind == 'world' and o.once)), e)
        return AV(NOTHING, taint)

    def e_UnaryOp(self, e):
        return AV(NOTHING, self.eval(e.operand).taint)

    def e_JoinedStr(self, e):
        taint = NOTHING
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                av = self.eval(v.value)
                taint |= av.taint | self.whole(av, v)
        return AV(NOTHING, taint)

    def whole(self, av, node):
        """text of a collection"""
        res = NOTHING
        for o in av.objs:
            res |= o.order
            if o.kind == 'set' or o.kind == 'world' and o.sets:
                res |= self.arbitrary(node, 'text of a set')
        return res

    def e_Yield(self, e):
        self.gives(self.eval(e.value) if e.value else SCALAR_AV)
        return SCALAR_AV

    def e_YieldFrom(self, e):
        av = self.eval(e.value)
        el, order = self.elements(av, e.value)
        self.note(e.value, av, order)
        self.context.append(('loop', order))
        self.gives(el)
        self.context.pop()
        return SCALAR_AV

    e_Await = e_Yield

    def note(self, node, av, order):
        """unordered collection is gone through"""
        if order and any(o.kind == 'set' or o.kind == 'world' and o.sets for o in av.objs):
            self.unordered[id(node)] = (self.frame.func, node)

    # -- calls

    def e_Call(self, e):
        fn = e.func
        args, kw = [], {}
        star = False
        for a in e.args:
            av = self.eval(a)
            if isinstance(a, ast.Starred):
                star = True
                args.append(self.elements(av, a)[0])
            else:
                args.append(av)
        for k in e.keywords:
            av = self.eval(k.value)
            if k.arg is None:
                for o in av.objs:
                    if o.kind == 'dict':
                        kw.setdefault('**', SCALAR_AV)
                        kw['**'] = kw['**'].join(o.fields.get('*', SCALAR_AV))
            else:
                kw[k.arg] = av
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super':
                return self.super_call(e, fn.attr, args, kw)
            d = dotted(fn)
            r = None
            if d is not None and d.split('.')[0] not in self.env and not self.local(d.split('.')[0]):
                r = self.prog.resolve(self.frame.func.module, fn)
                if r is None and hasattr(builtins, d.split('.')[0]) and d.count('.') == 1 and \
                        self.prog.lookup(self.frame.func.module, d.split('.')[0]) is None:
                    r = ('ext', d)
            if r and r[0] == 'ext':
                return self.external(r[1], e, args, kw)
            if r and r[0] in ('func', 'class'):
                return self.apply(self.binding(r, fn.attr), args, kw, e)
            base = self.eval(fn.value)
            return self.method_call(base, fn.attr, e, args, kw)
        if isinstance(fn, ast.Name) and fn.id not in self.env and not self.local(fn.id):
            r = self.prog.lookup(self.frame.func.module, fn.id)
            if r is None or r[0] == 'ext':
                return self.external(r[1] if r else fn.id, e, args, kw)
            if r[0] == 'enum':
                return SCALAR_AV
        return self.apply(self.eval(fn), args, kw, e)

    def local(self, name):
        fr = self.frame
        while fr is not None:
            if name in fr.cells:
                return True
            fr = fr.outer
        return False

    def super_call(self, e, name, args, kw):
        f = self.frame.func
        while f.outer:
            f = f.outer
        self_av = self.load(f.params[0][0])
        for c in f.cls.mro()[1:]:
            if name in c.methods:
                return self.call_func(c.methods[name], self_av, args, kw, e)
        return SCALAR_AV

    def apply(self, fav, args, kw, e):
        res = AV(NOTHING, fav.taint)
        for o in sorted(fav.objs, key=lambda o: str(o.key)):
            if o.kind == 'func':
                f = o.func
                if o.bound:
                    r = self.call_func(f, AV(o.bound), args, kw, e)
                else:
                    r = self.call_func(f, None, args, kw, e, o.frame)
                res = res.join(self.shared(f, r, None, e))
            elif o.kind == 'class':
                res = res.join(self.construct(o.type, args, kw, e))
            elif o.kind == 'inst' or o.kind == 'world' and o.type and o.type[0] == 'cls':
                cls = o.type if o.kind == 'inst' else o.type[1]
                m = cls.method('__call__')
                if m:
                    res = res.join(self.call_func(m, AV(frozenset([o])), args, kw, e))
        return res

    def shared(self, f, av, owner, e):
        """result of a function whose results are kept"""
        if not any(d and d.split('.')[-1] in CACHES for d in f.decorators):
            return av
        if owner is not None and owner.kind != 'world':
            return av
        objs = set()
        for o in av.objs:
            if o.kind == 'iter' or f.is_generator:
                self.effect(e, f'{f.qual} gives an iterator, that is kept for the next calls half-consumed', 'bad')
            elif o.kind in ('list', 'set', 'dict'):
                objs.add(self.world((o.kind, None) if o.kind != 'dict' else ('dict', None, None), f'kept result of {f.name}',
                                    sets=o.kind == 'set'))
            elif o.kind == 'inst':
                objs.add(self.world(('cls', o.type), f'kept result of {f.name}'))
            else:
                objs.add(o)
        return AV(frozenset(objs), av.taint)

    def call_func(self, f, self_av, args, kw, e, outer=None):
        pos, kwonly, var, kwvar = f.params
        bound = {}
        rest = list(args)
        if f.classmethod:
            o = self.obj(f.cls.node, 'class', type=f.cls)
            o.origin = f'class {f.cls.name}'
            self_av = AV(frozenset([o]))
        if self_av is not None and not f.static:
            rest = [self_av, *rest]
        for p in pos:
            if rest:
                bound[p] = rest.pop(0)
        if rest and var:
            o = self.obj(e, 'tuple', tag='args')
            for x in rest:
                self.set_field(o, '*', x)
            bound[var] = AV(frozenset([o]))
        elif var:
            bound[var] = SCALAR_AV
        extra = {}
        for k, v in kw.items():
            if k in pos or k in kwonly:
                bound[k] = v
            else:
                extra[k] = v
        if kwvar:
            o = self.obj(e, 'dict', tag='kwargs')
            for v in extra.values():
                self.set_field(o, '*', v)
            bound[kwvar] = AV(frozenset([o]))
        for p, d in f.defaults().items():
            if p not in bound:
                bound[p] = self.default(f, p, d)
        for p in [*pos, *kwonly]:
            bound.setdefault(p, SCALAR_AV)
        for p in bound:
            a = f.annotation(p)
            if a is not None:
                bound[p] = self.refine(bound[p], self.prog.type_of_annotation(f.module, a))
        frame = self.enter(f, outer, bound)
        if f.is_generator:
            o = self.obj(e, 'iter', tag=id(frame))
            self.set_field(o, '*', frame.elements)
            self.set_order(o, frame.order)
            return AV(frozenset([o]))
        if f.returns is not None:
            return self.refine(frame.result, self.prog.type_of_annotation(f.module, f.returns))
        return frame.result

    def refine(self, av, t):
        """what is declared about the value of unknown type"""
        def vague(o):
            return o.kind == 'world' and (o.type is None or o.type[0] == t[0] and None in o.type[1:])
        if t is None or t[0] == 'opt':
            t = t and t[1]
        if t is None or not any(vague(o) for o in av.objs):
            return av
        res = AV(frozenset(o for o in av.objs if not vague(o)), av.taint)
        for o in av.objs:
            if vague(o):
                res = res.join(self.world_av(t, o.origin, sets=o.sets, once=o.once, defaults=o.defaults, inner=o.inner))
        return res

    def default(self, f, p, d):
        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp, ast.SetComp)):
            kind = 'list' if isinstance(d, (ast.List, ast.ListComp)) else 'set' if isinstance(d, (ast.Set, ast.SetComp)) else \
                'dict' if isinstance(d, (ast.Dict, ast.DictComp)) else {'list': 'list', 'set': 'set', 'dict': 'dict'}.get(dotted(d.func))
            if kind:
                return AV(frozenset([self.world((kind, None) if kind != 'dict' else ('dict', None, None),
                                                f'the default value of {p} of {f.name}', sets=kind == 'set', kind=(f.qual, p))]))
            if dotted(d.func):
                r = self.prog.resolve(f.module, d.func)
                if r and r[0] == 'class':
                    return self.world_av(('cls', r[1]), f'the default value of {p} of {f.name}')
        return SCALAR_AV

    def construct(self, cls, args, kw, e):
        o = self.obj(e, 'inst', type=cls)
        av = AV(frozenset([o]))
        init = cls.method('__init__')
        if init:
            self.call_func(init, av, args, kw, e)
        elif cls.is_dataclass:
            fields = cls.all_fields()
            given = dict(zip([x[0] for x in fields], args))
            given.update({k: v for k, v in kw.items() if k != '**'})
            for name, _, default in fields:
                if name in given:
                    self.set_field(o, name, given[name])
                elif '**' in kw:
                    self.set_field(o, name, kw['**'])
                elif default is not None and isinstance(default, ast.Call):
                    # field(default_factory=...): its own
                    fac = next((k.value for k in default.keywords if k.arg == 'default_factory'), None)
                    kind = {'list': 'list', 'set': 'set', 'dict': 'dict'}.get(dotted(fac) if fac is not None else None)
                    if kind:
                        self.set_field(o, name, AV(frozenset([self.obj(default, kind)])))
                elif default is not None:
                    self.set_field(o, name, self.constant(default, cls.module, f'{cls.name}.{name}'))
            post = cls.method('__post_init__')
            if post:
                self.call_func(post, av, [], {}, e)
        elif any(dotted(b) and dotted(b).split('.')[-1] in ('list', 'dict', 'set', 'tuple', 'str') for b in cls.base_exprs):
            for a in args:
                self.set_field(o, '*', self.elements(a)[0])
        taint = NOTHING
        for v in [*args, *kw.values()]:
            taint |= v.taint
        return AV(av.objs, taint)

    def method_call(self, base, name, e, args, kw):
        res = AV(NOTHING, base.taint)
        plain = not base.objs
        for o in sorted(base.objs, key=lambda o: str(o.key)):
            one = AV(frozenset([o]))
            if o.kind in ('inst', 'class', 'func') or o.kind == 'world' and o.type and o.type[0] == 'cls':
                m = self.attribute(one, name, e.func)
                if m.objs:
                    res = res.join(self.apply(m, args, kw, e))
                elif name in WRITE and o.kind in ('world',):
                    self.wrote(one, e, self.text(e))
                elif name == '_replace' or name == 'replace' and o.kind == 'inst':
                    res = res.join(one)
                continue
            kind = o.kind if o.kind != 'world' else (o.type[0] if o.type else None)
            if kind in ('iter',) and name in ('__next__', 'send', 'close', 'throw'):
                if o.kind == 'world':
                    self.wrote(one, e, self.text(e))
                res = res.join(self.elements(one)[0]).tainted(o.order)
                continue
            if name in WRITE and kind in ('list', 'set', 'dict', 'coll', 'defaultdict', None, 'tuple'):
                self.wrote(one, e, self.text(e))
                self.grow(o, kind, name, args, e)
                if name == 'sort' and 'key' in kw and o.kind != 'world':
                    self.set_order(o, self.apply(kw['key'], [self.elements(one)[0]], {}, e).taint)
                if name in ('pop', 'popitem', 'popleft', 'setdefault'):
                    el, order = self.elements(one) if kind != 'dict' else (o.fields.get('*', SCALAR_AV), o.order)
                    if o.kind == 'world' and kind == 'dict':
                        el = self.world_av(o.type[2], f'value of {o.origin}')
                    if kind == 'set':
                        order |= self.arbitrary(e, 'an element of the set')
                    res = res.join(el).tainted(order)
                    for a in args[1:]:
                        res = res.join(a)
                continue
            if kind == 'dict' or kind == 'defaultdict':
                vals = o.fields.get('*', SCALAR_AV) if o.kind == 'dict' else self.world_av(
                    o.type[2] if len(o.type) > 2 else None, f'value of {o.origin}')
                keys = o.fields.get('keys', SCALAR_AV) if o.kind == 'dict' else self.world_av(
                    o.type[1] if len(o.type) > 1 else None, f'key of {o.origin}')
                if name in ('get', '__getitem__'):
                    res = join([res, vals, *args[1:]])
                    if name == '__getitem__' and o.kind == 'world' and o.defaults:
                        self.effect(e, f'{self.text(e)}: reading a missing key of {o.origin} creates it', 'unknown')
                elif name in ('items', 'keys', 'values', 'copy'):
                    r = self.obj(e, 'dict' if name == 'copy' else 'iter', tag=id(o))
                    if name == 'items':
                        p = self.obj(e, 'tuple', tag='item')
                        self.set_field(p, 0, keys)
                        self.set_field(p, 1, vals)
                        self.set_field(r, '*', AV(frozenset([p])))
                    else:
                        self.set_field(r, '*', keys if name == 'keys' else vals)
                        if name == 'copy':
                            self.set_field(r, 'keys', keys)
                    self.set_order(r, o.order)
                    res = res.join(AV(frozenset([r])))
                continue
            if kind == 'set':
                if name in ('union', 'intersection', 'difference', 'symmetric_difference', 'copy'):
                    r = self.obj(e, 'set')
                    self.set_field(r, '*', join([self.elements(one)[0], *[self.elements(a)[0] for a in args]]))
                    res = res.join(AV(frozenset([r])))
                elif name == '__iter__':
                    el, order = self.elements(one, e)
                    r = self.obj(e, 'iter')
                    self.set_field(r, '*', el)
                    self.set_order(r, order)
                    res = res.join(AV(frozenset([r])))
                continue
            if kind in ('list', 'tuple', 'coll'):
                if name == 'copy':
                    res = res.join(self.fresh_list(e, one))
                elif name in ('index', 'count'):
                    res = res.tainted(o.order if name == 'index' else NOTHING)
                continue
            plain = True
        if plain:
            # methods of texts, patterns, matches...
            for a in [*args, *kw.values()]:
                res = res.tainted(a.taint)
            if name == 'join' and args:
                el, order = self.elements(args[0], e)
                self.note(e, args[0], order)
                res = res.tainted(order | el.taint)
            if name in ('split', 'rsplit', 'splitlines', 'findall', 'groups', 'partition', 'rpartition'):
                r = self.obj(e, 'list')
                return AV(frozenset([r]), res.taint)
            if name in ('finditer',):
                return AV(frozenset([self.obj(e, 'iter')]), res.taint)
            if name in ('sub', 'subn') and args:
                res = res.join(AV(NOTHING, self.apply(args[0], [SCALAR_AV], {}, e).taint))
        return res

    def grow(self, o, kind, name, args, e):
        if o.kind == 'world' or not args:
            if name in ('sort',):
                o.order = o.order
            return
        if name in ('append', 'add', 'appendleft'):
            self.set_field(o, '*', args[0])
        elif name == 'insert':
            self.set_field(o, '*', args[-1])
        elif name in ('extend', 'update', 'extendleft'):
            for a in args:
                el, order = self.elements(a, e)
                if kind != 'dict':
                    self.set_field(o, '*', el)
                else:
                    for x in a.objs:
                        if x.kind == 'dict':
                            self.set_field(o, '*', x.fields.get('*', SCALAR_AV))
                            self.set_field(o, 'keys', x.fields.get('keys', SCALAR_AV))
                if kind != 'set':
                    self.set_order(o, order)
        elif name == 'setdefault':
            self.set_field(o, 'keys', args[0])
            for a in args[1:]:
                self.set_field(o, '*', a)
        if kind != 'set' and name not in ('remove', 'discard', 'pop', 'clear', 'sort', 'reverse'):
            self.set_order(o, self.flow())

    def fresh_list(self, e, av, kind='list'):
        el, order = self.elements(av, e)
        self.note(e, av, order)
        r = self.obj(e, kind)
        self.set_field(r, '*', el)
        if kind != 'set':
            self.set_order(r, order)
        return AV(frozenset([r]))

    def external(self, name, e, args, kw):
        short = name.split('.')[-1]
        allargs = [*args, *kw.values()]
        taint = NOTHING
        for a in allargs:
            taint |= a.taint
        if name in PROCESS or name == 'open' and self.writing(e):
            self.effect(e, f'{self.text(e)}: {name} changes the state of the process', 'bad')
        if name in CHANGES and args:
            target = args[0]
            if name == 'next':
                target = AV(frozenset(o for o in target.objs if o.kind == 'world' and (o.type is None or o.type[0] == 'iter')))
                if target.objs:
                    self.wrote(target, e, self.text(e))
            else:
                self.wrote(target, e, self.text(e))
            for o in args[0].objs:
                if o.kind == 'list' and len(args) > 1:
                    self.set_field(o, '*', args[-1 if name.startswith('heapq') else 1])
                    self.set_order(o, self.flow())
                elif o.kind == 'set' and len(args) > 1:
                    self.set_field(o, '*', args[1])
                elif o.kind == 'inst' and name in ('setattr', 'object.__setattr__') and len(args) > 2:
                    k = e.args[1]
                    self.set_field(o, k.value if isinstance(k, ast.Constant) else '*', args[2])
            if name == 'next':
                el, order = self.elements(args[0], e)
                self.note(e, args[0], order)
                return join([el.tainted(order | self.flow() if order else order), *args[1:]])
            if name in ('heapq.heappop', 'heapq.heappushpop', 'heapq.heapreplace'):
                return self.elements(args[0])[0]
            if name != 'random.shuffle':
                return SCALAR_AV
        if name in VARYING or name.startswith('os.environ') or name.split('.')[0] in VARYING_MODULES and '.' in name:
            t = self.arbitrary(e, name)
            for a in args:
                for o in a.objs:
                    if name == 'random.shuffle':
                        self.set_order(o, t)
            if name in ('random.sample', 'os.listdir', 'glob.glob', 'random.choices'):
                o = self.obj(e, 'list')
                self.set_order(o, t)
                if args:
                    self.set_field(o, '*', self.elements(args[0])[0].tainted(t))
                return AV(frozenset([o]))
            return AV(join([self.elements(a)[0] for a in args]).objs if name == 'random.choice' else NOTHING, taint | t)
        if name in ORDERLESS:
            if name in ('set', 'frozenset'):
                r = self.obj(e, 'set')
                if args:
                    self.set_field(r, '*', self.elements(args[0], None)[0])
                    self.consume(args[0], e)
                return AV(frozenset([r]))
            if args:
                self.consume(args[0], e)
                if name in ('any', 'all', 'sum'):
                    taint |= self.elements(args[0])[0].taint
            return AV(NOTHING, taint)
        if name in SORTING:
            src = args[-1] if name.startswith('heapq') else None
            key = 'key' in kw
            if name in ('max', 'min') and len(args) > 1:
                return join(args)
            src = src or (args[0] if args else SCALAR_AV)
            el, order = self.elements(src, e if key else None)
            self.consume(src, e)
            if key:
                order |= self.apply(kw['key'], [el], {}, e).taint
                self.note(e, src, order)
            if name in ('max', 'min'):
                return join([el.tainted(order if key else NOTHING), kw.get('default', SCALAR_AV)])
            r = self.obj(e, 'list')
            self.set_field(r, '*', el.tainted(order) if key and name != 'sorted' else el)
            if key:
                self.set_order(r, order)
            return AV(frozenset([r]))
        if name in LISTS:
            return self.fresh_list(e, args[0], 'tuple' if name == 'tuple' else 'list') if args else AV(frozenset([self.obj(e, 'list')]))
        if name in ('dict', 'collections.OrderedDict', 'collections.defaultdict', 'dict.fromkeys', 'collections.ChainMap'):
            r = self.obj(e, 'dict')
            rest = args[1:] if name == 'collections.defaultdict' else args
            src = rest[0] if rest else SCALAR_AV
            if name == 'collections.defaultdict' and args:
                self.set_field(r, '*', self.apply(args[0], [], {}, e))
                k = e.args[0]
                if isinstance(k, ast.Name) and k.id in ('list', 'set', 'dict'):
                    self.set_field(r, '*', AV(frozenset([self.obj(k, k.id)])))
            if src.objs:
                el, order = self.elements(src, e)
                self.note(e, src, order)
                self.set_field(r, 'keys', el if name == 'dict.fromkeys' else self.component(el, 0))
                if name != 'dict.fromkeys':
                    for o in src.objs:
                        self.set_field(r, '*', o.fields.get('*', SCALAR_AV) if o.kind == 'dict' else self.component(el, 1))
                self.set_order(r, order)
            for v in kw.values():
                self.set_field(r, '*', v)
            return AV(frozenset([r]))
        if name in LAZY:
            r = self.obj(e, 'iter')
            order = NOTHING
            els = []
            srcs = args
            if name in ('map', 'filter', 'itertools.takewhile', 'itertools.dropwhile', 'itertools.filterfalse', 'itertools.starmap'):
                srcs = args[1:]
            for a in srcs:
                el, od = self.elements(a, e)
                self.note(e, a, od)
                order |= od
                if name == 'itertools.islice' and od:
                    el = el.tainted(od)
                els.append(el)
                if name == 'itertools.chain.from_iterable':
                    el, od = self.elements(el, e)
                    els[-1] = el
                    order |= od
            if name in ('enumerate', 'zip', 'itertools.zip_longest', 'itertools.product', 'itertools.pairwise'):
                p = self.obj(e, 'tuple', tag='item')
                if name == 'enumerate':
                    els = [AV(NOTHING, order), *els]
                for i, x in enumerate(els):
                    # position or pair of an element in arbitrary order
                    self.set_field(p, i, x.tainted(order) if name == 'zip' else x)
                els = [AV(frozenset([p]))]
            elif name in ('map', 'itertools.starmap') and args:
                els = [self.apply(args[0], els if name == 'map' else [self.component(els[0], i) for i in range(3)] if els else [], {}, e)]
                if isinstance(e.args[0], ast.Name) or isinstance(e.args[0], ast.Attribute):
                    pass
            elif name in ('filter', 'itertools.takewhile', 'itertools.dropwhile', 'itertools.filterfalse') and args:
                c = self.apply(args[0], els, {}, e)
                order |= c.taint
                if name in ('itertools.takewhile', 'itertools.dropwhile') and order:
                    els = [x.tainted(order) for x in els]
            if els:
                self.set_field(r, '*', join(els))
            self.set_order(r, order | (taint if name == 'range' else NOTHING))
            return AV(frozenset([r]))
        if name in ('dataclasses.replace', 'copy.copy', 'copy.deepcopy', 'replace') and args:
            objs = set()
            for o in args[0].objs:
                cls = o.type if o.kind == 'inst' else o.type[1] if o.kind == 'world' and o.type and o.type[0] == 'cls' else None
                if cls is None:
                    objs |= {x for x in self.fresh_list(e, AV(frozenset([o])), o.kind if o.kind in ('list', 'set', 'dict') else 'list').objs}
                    continue
                n = self.obj(e, 'inst', type=cls)
                for fname, av in list(o.fields.items()):
                    self.set_field(n, fname, av)
                if o.kind == 'world':
                    for fname, *_ in cls.all_fields():
                        self.set_field(n, fname, self.world_attr(o, cls, fname, e))
                for k, v in kw.items():
                    if k == '**':
                        for fname, *_ in cls.all_fields():
                            self.set_field(n, fname, v)
                    else:
                        self.set_field(n, k, v)
                objs.add(n)
            return AV(frozenset(objs), taint)
        if name in ('str', 'repr', 'format', 'print'):
            for a in args:
                taint |= self.whole(a, e)
            return AV(NOTHING, taint)
        if name in ('getattr',) and len(e.args) > 1 and isinstance(e.args[1], ast.Constant):
            return self.attribute(args[0], e.args[1].value, e).join(join(args[2:]))
        if name == 'vars' and args:
            return args[0]
        if name in ('functools.reduce',) and args:
            el, order = self.elements(args[1], e)
            r = self.apply(args[0], [el, el], {}, e)
            return r.join(join(args[2:])).tainted(order)
        if name == 'functools.partial' and args:
            for o in args[0].objs:
                self.apply(args[0], args[1:], kw, e)
            return args[0]
        if name in ('re.findall', 're.split'):
            return AV(frozenset([self.obj(e, 'list')]), taint)
        # unknown: functions given to it may be called
        for a in allargs:
            if any(o.kind == 'func' for o in a.objs):
                taint |= self.apply(AV(frozenset(o for o in a.objs if o.kind == 'func')), [SCALAR_AV], {}, e).taint
        return AV(NOTHING, taint)

    def consume(self, av, e):
        """an iterator is gone through"""
        self.elements(AV(frozenset(o for o in av.objs if o.kind == 'world' and o.once)), e)

    def writing(self, e):
        mode = e.args[1] if len(e.args) > 1 else next((k.value for k in e.keywords if k.arg == 'mode'), None)
        return mode is not None and not (isinstance(mode, ast.Constant) and isinstance(mode.value, str) and set(mode.value) <= set('rbt'))

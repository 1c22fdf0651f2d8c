"""
Terms (hash-consed values of the abstract interpretation) and their normalising constructors;
predicates over terms as decision diagrams.
"""

from . import rx
from .bdd import BDD
from .front import ClassInfo, EnumInfo


# methods of texts and patterns whose result is always there
NEVER_NONE = {'sub', 'replace', 'lower', 'upper', 'capitalize', 'strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'join', 'translate',
              'partition', 'rpartition', 'findall', 'finditer', 'find', 'rfind', 'format', 'startswith', 'endswith', 'removesuffix',
              'removeprefix', 'casefold', 'title', 'swapcase', 'splitlines', 'items', 'keys', 'values'}


# never negative
METRICS = {'algo.string_metrics:' + n for n in ('commoncharacters', 'leftcommonsubstring', 'lcslen')}


def counts(t):
    """position in a sequence, or number of something"""
    if t.op == 'call':
        return t.args[0].qual in METRICS
    return t.op == 'elem' and t.args[0].op == 'ext' and t.args[0].args[0] == 'range' and len(t.args[0].args[1]) == 1


class Term:
    __slots__ = ('op', 'args', 'id', 'fv', 'opq', '_typ', '_typed')

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


class B:
    """Guard inside of term"""
    __slots__ = ('n', 'fv', 'opq')

    def __repr__(self):
        return f'B{self.n}'


STR_RET = {
    'lower': 'str', 'upper': 'str', 'capitalize': 'str', 'title': 'str', 'casefold': 'str', 'strip': 'str',
    'lstrip': 'str', 'rstrip': 'str', 'replace': 'str', 'translate': 'str', 'join': 'str', 'format': 'str',
    'removeprefix': 'str', 'removesuffix': 'str', 'sub': 'str', 'readline': 'str',
    'find': 'int', 'rfind': 'int', 'index': 'int', 'rindex': 'int', 'count': 'int', 'start': 'int', 'end': 'int',
    'islower': 'bool', 'isupper': 'bool', 'isdigit': 'bool', 'startswith': 'bool', 'endswith': 'bool',
    'istitle': 'bool', 'isdisjoint': 'bool', 'issubset': 'bool', 'issuperset': 'bool',
    'split': 'liststr', 'rsplit': 'liststr', 'splitlines': 'liststr', 'findall': 'liststr',
    'partition': 'tup3', 'rpartition': 'tup3',
}

BOOL_METHODS = {'islower', 'isupper', 'isdigit', 'startswith', 'endswith', 'istitle', 'isdisjoint', 'issubset',
                'issuperset', 'isalpha', 'isspace'}

COLL_WRAPPERS = {'list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'iter'}


# types of what functions without annotations give
RETURNS = {'readers.file_reader:BaseReader.readlines': ('iter', ('tuple', (('int',), ('str',))))}


class Alg:
    def __init__(self, prog):
        self.prog = prog
        self.bdd = BDD()
        self.terms = {}
        self.bs = {}
        self.atoms = []             # var -> atom term
        self.atom_vars = {}
        self.substituted = {}
        self.none = self.const(None)
        self.true = self.const(True)
        self.false = self.const(False)
        self.uid = 0
        self.closure_count = 0
        self.closure_lams = {}      # closure -> what it gives for its parameters
        self.patterns = {}          # normal form of regular expression -> its first writing
        self.nonnull_opts = set()   # (class qual) whose Optional[str] attributes are None or non-empty

    # -- creation

    def mk(self, op, *args):
        key = (op, args)
        t = self.terms.get(key)
        if t is None:
            t = Term()
            t.op = op
            t.args = args
            t.id = len(self.terms)
            t._typed = False
            t._typ = None
            fv = set()
            opq = op in ('phi', 'unk', 'unbound', 'mu', 'mupost', 'mutated', 'apply')
            if op in ('elem', 'phi'):
                fv.add(t)
            bound = set()
            if op in ('exists', 'first'):
                bound.add(args[0])
            stack = list(args)
            while stack:
                a = stack.pop()
                if isinstance(a, (Term, B)):
                    fv |= a.fv
                    opq = opq or a.opq
                elif isinstance(a, Item):
                    f, o = a.free()
                    fv |= f
                    opq = opq or o
                elif isinstance(a, tuple):
                    stack.extend(a)
            if bound:
                x = args[0]
                inner = fv - bound
                fv = set(inner) | set(x.args[0].fv)
            t.fv = frozenset(fv)
            t.opq = opq
            self.terms[key] = t
        return t

    def B(self, n):
        b = self.bs.get(n)
        if b is None:
            b = B()
            b.n = n
            fv = set()
            opq = False
            for v in self.bdd.support(n):
                a = self.atoms[v]
                fv |= a.fv
                opq = opq or a.opq
            b.fv = frozenset(fv)
            b.opq = opq
            self.bs[n] = b
        return b

    def const(self, v):
        return self.mk('const', type(v).__name__, v)

    def sym(self, name, typ=None):
        t = self.mk('sym', name)
        t._typed = True
        t._typ = typ
        return t

    def fresh(self, op, *info, typ=None):
        self.uid += 1
        t = self.mk(op, self.uid, *info)
        t._typed = True
        t._typ = typ
        return t

    def elem(self, it, level=0):
        return self.mk('elem', it, level)

    # -- guards

    def atom(self, t):
        v = self.atom_vars.get(t)
        if v is None:
            v = len(self.atoms)
            self.atoms.append(t)
            self.atom_vars[t] = v
        return self.bdd.var(v)

    def AND(self, *fs):
        return self.bdd.AND(*fs)

    def OR(self, *fs):
        return self.bdd.OR(*fs)

    def NOT(self, f):
        return self.bdd.NOT(f)

    def bool_term(self, n):
        if n == 1:
            return self.true
        if n == 0:
            return self.false
        return self.mk('bool', self.B(n))

    # -- types

    def typeof(self, t):
        if not t._typed:
            t._typed = True
            t._typ = self._typeof(t)
        return t._typ

    def _typeof(self, t):
        op = t.op
        if op == 'const':
            return {'str': ('str',), 'int': ('int',), 'bool': ('bool',), 'float': ('float',),
                    'NoneType': ('none',)}.get(t.args[0])
        if op == 'bool':
            return ('bool',)
        if op == 'position':
            return ('int',)
        if op == 'enum':
            return ('enum', t.args[0])
        if op == 'rec' or op == 'new':
            return ('cls', t.args[0])
        if op == 'attr':
            base = self.strip_opt(self.typeof(t.args[0]))
            if base and base[0] == 'cls':
                ty = self.prog.attr_type(base[1], t.args[1])
                return ty
            if base and base[0] == 'union':
                tys = [self.prog.attr_type(u[1], t.args[1]) for u in base[1] if u and u[0] == 'cls']
                tys = [u for u in tys if u]
                return tys[0] if tys and all(u == tys[0] for u in tys) else None
            return None
        if op in ('elem', 'first'):
            it = t.args[0] if op == 'elem' else t.args[0].args[0]
            return self.elemtype(self.typeof(it))
        if op == 'index':
            base = self.strip_opt(self.typeof(t.args[0]))
            if base:
                if base[0] == 'tuple' and t.args[1].op == 'const' and isinstance(t.args[1].args[1], int) and \
                        -len(base[1]) <= t.args[1].args[1] < len(base[1]):
                    return base[1][t.args[1].args[1]]
                if base[0] == 'dict':
                    return base[2]
                return self.elemtype(base)
            return None
        if op == 'slice':
            return self.typeof(t.args[0])
        if op in ('concat',):
            return ('str',)
        if op in ('lin', 'min', 'max', 'len'):
            if op == 'lin' and any(self.typeof(x) == ('float',) for x, _ in t.args[1]):
                return ('float',)
            return ('int',)
        if op == 'seq':
            ts = [self.typeof(i.term) if i.kind == 'one' else self.elemtype(self.typeof(i.term)) for i in t.args[1]]
            e = ts[0] if ts and all(x == ts[0] for x in ts) else None
            if t.args[0] == 'tuple' and all(i.kind == 'one' and i.guard.n == 1 and not i.binders for i in t.args[1]):
                return ('tuple', tuple(ts))
            return ({'list': 'list', 'tuple': 'list', 'set': 'set', 'gen': 'iter'}[t.args[0]], e)
        if op == 'map':
            return ('dict', None, None)
        if op in ('union', 'inter', 'diff'):
            return ('set', None)
        if op == 'call':
            f = t.args[0]
            return self.prog.type_of_annotation(f.module, f.returns) or RETURNS.get(f.qual)
        if op == 'gen':
            f = t.args[0]
            return self.prog.type_of_annotation(f.module, f.returns) or ('iter', None)
        if op == 'meth':
            name = t.args[1]
            rt = self.typeof(t.args[0])
            if name == 'get' and rt and rt[0] == 'dict':
                return rt[2]
            if name == 'get' and rt and rt[0] == 'defaultdict':
                return None
            if name == 'values' and rt and rt[0] == 'dict':
                return ('coll', rt[2])
            if name == 'keys' and rt and rt[0] == 'dict':
                return ('coll', rt[1])
            if name == 'items' and rt and rt[0] == 'dict':
                return ('coll', ('tuple', (rt[1], rt[2])))
            k = STR_RET.get(name)
            if k in ('str', 'int', 'bool'):
                return (k,)
            if k == 'liststr':
                return ('list', ('str',))
            if k == 'tup3':
                return ('tuple', (('str',),) * 3)
            return None
        if op == 'ext':
            n = t.args[0]
            if n in ('len', 'int', 'abs', 'sum', 'ord', 'hash', 'id'):
                return ('int',)
            if n in ('str', 'repr', 'chr', 're.escape', 're.sub'):
                return ('str',)
            if n == 'range':
                return ('list', ('int',))
            if n in ('list', 'sorted', 'tuple', 'reversed'):
                return ('list', self.elemtype(self.typeof(t.args[1][0])) if t.args[1] else None)
            if n in ('set', 'frozenset'):
                return ('set', self.elemtype(self.typeof(t.args[1][0])) if t.args[1] else None)
            if n in ('re.split', 're.findall'):
                return ('list', ('str',))
            return None
        if op == 'v':
            for b, x in t.args[0]:
                ty = self.typeof(x)
                if ty and ty != ('none',):
                    return ty
            return None
        return None

    @staticmethod
    def strip_opt(ty):
        while ty and ty[0] == 'opt':
            ty = ty[1]
        return ty

    def elemtype(self, ty):
        ty = self.strip_opt(ty)
        if not ty:
            return None
        if ty[0] in ('list', 'set', 'iter', 'coll'):
            return ty[1]
        if ty[0] == 'dict':
            return ty[1]
        if ty[0] == 'str':
            return ('str',)
        if ty[0] == 'tuple' and ty[1] and all(x == ty[1][0] for x in ty[1]):
            return ty[1][0]
        return None

    # -- linear arithmetic

    def lin(self, const, coefs):
        coefs = {t: c for t, c in coefs.items() if c}
        if not coefs:
            return self.const(const)
        if const == 0 and len(coefs) == 1:
            (t, c), = coefs.items()
            if c == 1:
                return t
        return self.mk('lin', const, tuple(sorted(coefs.items(), key=lambda p: p[0].id)))

    def aslin(self, t):
        if t.op == 'const' and isinstance(t.args[1], (int, float)) and not isinstance(t.args[1], bool):
            return t.args[1], {}
        if t.op == 'const' and isinstance(t.args[1], bool):
            return int(t.args[1]), {}
        if t.op == 'lin':
            return t.args[0], dict(t.args[1])
        return 0, {t: 1}

    def linadd(self, a, b, sign=1):
        c1, m1 = self.aslin(a)
        c2, m2 = self.aslin(b)
        m = dict(m1)
        for t, c in m2.items():
            m[t] = m.get(t, 0) + sign * c
        return self.lin(c1 + sign * c2, m)

    def isnum(self, t):
        ty = self.typeof(t)
        return bool(ty) and ty[0] in ('int', 'float') or t.op == 'lin'

    def isstr(self, t):
        ty = self.typeof(t)
        return bool(ty) and ty[0] == 'str'

    def islist(self, t):
        return t.op == 'seq' or (bool(self.typeof(t)) and self.typeof(t)[0] == 'list')

    def add(self, a, b):
        if self.isstr(a) or self.isstr(b):
            return self.concat([a, b])
        if a.op == 'seq' and b.op == 'seq' or self.islist(a) and self.islist(b):
            return self.seq('list', self.items_of(a) + self.items_of(b))
        if self.isnum(a) or self.isnum(b):
            return self.linadd(a, b)
        return self.mk('add', a, b)

    def sub(self, a, b):
        ta, tb = self.typeof(a), self.typeof(b)
        if ta and ta[0] == 'set' or tb and tb[0] == 'set':
            return self.mk('diff', a, b)
        return self.linadd(a, b, -1)

    def mul(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == 'const' and isinstance(x.args[1], int) and not isinstance(x.args[1], bool) and \
                    not self.isstr(y) and y.op != 'seq':
                c, m = self.aslin(y)
                k = x.args[1]
                return self.lin(c * k, {t: v * k for t, v in m.items()})
        return self.mk('mul', *sorted([a, b], key=lambda t: t.id))

    def concat(self, parts):
        flat = []
        for p in parts:
            if p.op == 'concat':
                flat.extend(p.args)
            else:
                flat.append(p)
        res = []
        for p in flat:
            if p.op == 'const' and p.args[1] == '':
                continue
            if res and p.op == 'const' and res[-1].op == 'const' and isinstance(p.args[1], str) and \
                    isinstance(res[-1].args[1], str):
                res[-1] = self.const(res[-1].args[1] + p.args[1])
                continue
            if res and p.op == 'slice' and res[-1].op == 'slice' and p.args[0] is res[-1].args[0] and \
                    p.args[1] is res[-1].args[2] and p.args[1] is not self.none and \
                    p.args[3] is self.none and res[-1].args[3] is self.none:
                # word[a:b] + word[b:c] is word[a:c] only for 0 <= a <= b <= c; leave as is
                pass
            res.append(p)
        if not res:
            return self.const('')
        if len(res) == 1:
            return res[0]
        return self.mk('concat', *res)

    # -- structure

    def seq(self, kind, items):
        """items: list of Item"""
        res = []
        for it in items:
            if it.guard.n == 0:
                continue
            if it.kind == 'star':
                s = it.term
                s = self.strip_wrap(s)
                if s.op == 'seq':
                    for sub in s.args[1]:
                        res.append(Item(self.B(self.AND(it.guard.n, sub.guard.n)), it.binders + sub.binders,
                                        sub.kind, sub.term))
                    continue
                if s is not it.term:
                    it = Item(it.guard, it.binders, 'star', s)
            res.append(it)
        # one variable comprehension over collection without condition is the collection itself
        out = []
        for it in res:
            if it.kind == 'one' and len(it.binders) == 1 and it.term is it.binders[0] and it.guard.n == 1:
                it = Item(self.B(1), (), 'star', it.term.args[0])
            if out and it.kind == 'one' and out[-1].kind == 'one' and out[-1].term is it.term and \
                    out[-1].binders == it.binders and self.AND(out[-1].guard.n, it.guard.n) == 0:
                out[-1] = Item(self.B(self.OR(out[-1].guard.n, it.guard.n)), it.binders, 'one', it.term)
                continue
            out.append(it)
        if kind == 'set':
            seen = []
            for it in out:
                if it not in seen:
                    seen.append(it)
            out = sorted(seen, key=lambda i: i.key())
        if len(out) == 1 and out[0].kind == 'star' and out[0].guard.n == 1 and not out[0].binders:
            # [*x] -- the same elements as in x
            return self.ext({'list': 'list', 'tuple': 'tuple', 'set': 'set', 'gen': 'iter'}[kind], [out[0].term], ())
        if kind == 'tuple' and len(out) >= 2 and out[0].term.op == 'index' and out[0].term.args[0].op in ('elem', 'first'):
            # rebuilt from all its components
            t = out[0].term.args[0]
            if not self.isstr(t) and all(i.kind == 'one' and i.guard.n == 1 and not i.binders and i.term.op == 'index' and
                                         i.term.args[0] is t and i.term.args[1] is self.const(k)
                                         for k, i in enumerate(out)):
                return t
        return self.mk('seq', kind, tuple(out))

    def items_of(self, t):
        t2 = self.strip_wrap(t)
        if t2.op == 'seq':
            return list(t2.args[1])
        return [Item(self.B(1), (), 'star', t2)]

    def strip_wrap(self, t):
        """list(x), sorted(x), set(x)... -> x (as a collection of elements)"""
        while t.op == 'ext' and t.args[0] in COLL_WRAPPERS and t.args[1]:
            t = t.args[1][0]
        return t

    def attr(self, t, name):
        if t.op == 'rec':
            for f, v in t.args[1]:
                if f == name:
                    return v
        if t.op == 'new':
            pass
        return self.mk('attr', t, name)

    def index(self, t, i):
        if t.op == 'ext' and t.args[0] == 'sorted' and i.op == 'const' and i.args[1] == 0:
            kw = dict(t.args[2])
            rev = kw.pop('reverse', self.false)
            if rev.op == 'const':
                return self.ext('max' if rev.args[1] else 'min', t.args[1], tuple(kw.items()))
        if t.op == 'seq' and t.args[0] in ('list', 'tuple') and i.op == 'const' and isinstance(i.args[1], int):
            items = t.args[1]
            k = i.args[1]
            rng = items if k >= 0 else items[::-1]
            kk = k if k >= 0 else -k - 1
            if all(x.kind == 'one' and x.guard.n == 1 and not x.binders for x in rng[:kk + 1]) and kk < len(rng):
                return rng[kk].term
        if t.op == 'map' and i.op == 'const':
            got = self.map_get(t, i)
            if got is not None:
                return got
        if t.op == 'map' and t.args[0] and all(x.kind == 'pair' and x.term.args[0].op == 'const' and
                                               x.guard.n == 1 and not x.binders for x in t.args[0]):
            pairs = {x.term.args[0]: x.term.args[1] for x in t.args[0]}
            alts, rest = [], 1
            for k, v in pairs.items():
                n = self.eq(i, k)
                alts.append((self.AND(rest, n), v))
                rest = self.AND(rest, self.NOT(n))
            return self.vterm(alts + [(rest, self.mk('index', t, i))])
        if t.op == 'const' and isinstance(t.args[1], str) and i.op == 'const':
            try:
                return self.const(t.args[1][i.args[1]])
            except Exception:
                pass
        if t.op == 'slice' and t.args[1] is self.none and t.args[3] is self.none and i.op == 'const' and \
                i.args[1] == 0:
            return self.mk('index', t.args[0], i) if t.args[2].op != 'const' or t.args[2].args[1] != 0 else \
                self.mk('index', t, i)
        lo = self.tail(t)
        if lo and i.op == 'const' and isinstance(i.args[1], int) and i.args[1] >= 0:
            return self.index(t.args[0], self.const(lo + i.args[1]))
        return self.mk('index', t, i)

    def tail(self, t):
        """number of elements the slice drops at the beginning, if that's all it does"""
        if t.op == 'slice' and t.args[2] is self.none and t.args[3] is self.none and t.args[1].op == 'const' and \
                isinstance(t.args[1].args[1], int) and t.args[1].args[1] > 0:
            return t.args[1].args[1]
        return 0

    def map_get(self, t, key):
        """value of constant key in dict literal; None if not known"""
        for it in reversed(t.args[0]):
            if it.kind != 'pair' or it.guard.n != 1 or it.binders:
                return None
            k, v = it.term.args
            if k is key:
                return v
            if k.op != 'const':
                return None
        return None

    def slice(self, t, lo, hi, step):
        if lo.op == 'const' and lo.args[1] == 0 and step is self.none:
            lo = self.none
        if step.op == 'const' and step.args[1] == 1:
            step = self.none
        if hi.op == 'ext' and hi.args[0] == 'len' and hi.args[1] == (t,):
            hi = self.none
        if lo is self.none and hi is self.none and step is self.none:
            return t
        if t.op == 'const' and isinstance(t.args[1], str) and all(x.op == 'const' for x in (lo, hi, step)):
            return self.const(t.args[1][lo.args[1]:hi.args[1]:step.args[1]])
        # reversed list of the literal
        if t.op == 'seq' and t.args[0] in ('list', 'tuple') and \
                all(x.kind == 'one' and x.guard.n == 1 and not x.binders for x in t.args[1]) and \
                all(x.op == 'const' for x in (lo, hi, step)):
            return self.seq(t.args[0], list(t.args[1][lo.args[1]:hi.args[1]:step.args[1]]))
        if lo is self.none and hi is self.none and step.op == 'const' and step.args[1] == -1 and self.islist(t):
            return self.ext('reversed', [t], ())
        if hi is self.none and step is self.none and self.tail(t) and lo.op == 'const' and lo.args[1] > 0:
            return self.slice(t.args[0], self.const(self.tail(t) + lo.args[1]), hi, step)
        return self.mk('slice', t, lo, hi, step)

    def rec(self, cls, fields):
        return self.mk('rec', cls, tuple(fields))

    def update_rec(self, t, cls, changes):
        fields = []
        for f in cls.all_fields():
            name = f[0]
            fields.append((name, changes[name] if name in changes else self.attr(t, name)))
        return self.rec(cls, fields)

    def ext(self, name, args, kw):
        args = tuple(args)
        kw = tuple(kw)
        if name in COLL_WRAPPERS and len(args) == 1 and not kw:
            a = args[0]
            if a.op == 'ext' and a.args[0] in COLL_WRAPPERS and a.args[1] and not a.args[2]:
                if name in ('list', 'tuple', 'iter'):
                    if a.args[0] == 'set' or a.args[0] == 'frozenset' or a.args[0] in ('sorted', 'reversed'):
                        return a if name != 'iter' else a
                a2 = a.args[1][0] if a.args[0] in ('list', 'tuple', 'iter') else a
                args = (a2,)
                a = a2
            if a.op == 'seq' and name in ('list', 'tuple', 'set', 'frozenset', 'iter'):
                return self.seq({'frozenset': 'set', 'iter': 'gen'}.get(name, name), list(a.args[1]))
            if a.op == 'const' and a.args[1] == '':
                return self.seq({'frozenset': 'set', 'iter': 'gen', 'sorted': 'list', 'reversed': 'gen'}.get(name, name),
                                [])
            if name == 'frozenset':
                name = 'set'
        if name == 'min' and len(args) == 1 and len(kw) == 1 and kw[0][0] == 'key' and kw[0][1].op == 'lam':
            c, m = self.aslin(kw[0][1].args[1])
            if m and all(k < 0 for k in m.values()):
                name = 'max'
                kw = (('key', self.mk('lam', kw[0][1].args[0], self.lin(-c, {t: -k for t, k in m.items()}))),)
        if name == 'sorted' and len(args) == 1 and kw:
            # order by decreasing value of the negated key
            opts = dict(kw)
            key, rev = opts.get('key'), opts.get('reverse', self.false)
            if key is not None and key.op == 'lam' and rev.op == 'const':
                c, m = self.aslin(key.args[1])
                rev = bool(rev.args[1])
                if m and all(k < 0 for k in m.values()) and key.args[1].op == 'lin':
                    key = self.mk('lam', key.args[0], self.lin(-c, {t: -k for t, k in m.items()}))
                    rev = not rev
                kw = (('key', key),) + ((('reverse', self.true),) if rev else ())
        if name == 'len' and len(args) == 1:
            a = args[0]
            if a.op == 'ext' and a.args[0] in ('list', 'tuple', 'sorted', 'reversed') and a.args[1]:
                return self.ext('len', [a.args[1][0]], ())
            if a.op == 'seq' and a.args[0] in ('list', 'tuple') and \
                    all(i.kind == 'one' and i.guard.n == 1 and not i.binders for i in a.args[1]):
                return self.const(len(a.args[1]))
            if a.op == 'const' and isinstance(a.args[1], str):
                return self.const(len(a.args[1]))
        if name == 'abs' and len(args) == 1 and args[0].op == 'lin':
            c, m = self.aslin(args[0])
            if m[min(m, key=lambda t: t.id)] < 0:
                args = (self.lin(-c, {t: -k for t, k in m.items()}),)
        if name == 'open' and len(args) > 1 and args[1].op == 'const' and args[1].args[1] in ('r', 'rt') and len(args) == 2:
            args = args[:1]
        if name == 'open':
            kw = tuple((k, v) for k, v in kw if not (k == 'mode' and v.op == 'const' and v.args[1] in ('r', 'rt')))
        if name in ('min', 'max') and len(args) > 1 and not kw:
            if all(x.op == 'const' for x in args):
                return self.const({'min': min, 'max': max}[name](x.args[1] for x in args))
            flat = []
            for x in args:
                flat.extend(x.args if x.op == name else [x])
            return self.mk(name, *sorted(set(flat), key=lambda t: t.id))
        if name == 'range':
            if len(args) == 2 and args[0].op == 'const' and args[0].args[1] == 0:
                args = (args[1],)
            if len(args) == 3 and args[2].op == 'const' and args[2].args[1] == 1:
                return self.ext('range', args[:2], ())
            if len(args) == 3 and args[2].op == 'const' and args[2].args[1] == -1:
                # range(b, a, -1) has the same elements as range(a + 1, b + 1)
                one = self.const(1)
                return self.ext('reversed', [self.ext('range', [self.linadd(args[1], one),
                                                                self.linadd(args[0], one)], ())], ())
        if name in ('str',) and len(args) == 1 and self.isstr(args[0]):
            return args[0]
        if name == 're.compile' and len(args) == 1 and not kw and args[0].op == 'const' and \
                isinstance(args[0].args[1], str):
            form = rx.canonical(args[0].args[1])
            if form is not None:
                args = (self.patterns.setdefault(form, args[0]),)
        if name[:3] == 're.' and name[3:] in rx.USERS and len(args) > 1 and all(k != 'pattern' for k, _ in kw):
            flags = tuple(v for k, v in kw if k == 'flags')
            return self.meth(self.ext('re.compile', args[:1] + flags, ()), name[3:], args[1:],
                             tuple((k, v) for k, v in kw if k != 'flags'))
        if name == 'int' and len(args) == 1 and args[0].op == 'const' and isinstance(args[0].args[1], (int, bool)):
            return self.const(int(args[0].args[1]))
        return self.mk('ext', name, args, kw)

    def meth(self, recv, name, args, kw=()):
        args = tuple(args)
        kw = tuple(kw)
        if name == 'union' and not kw:
            return self.union([recv, *args])
        if name in ('split', 'rsplit') and len(args) == 1 and len(kw) == 1 and kw[0][0] == 'maxsplit' or \
                name == 'sub' and len(args) == 2 and len(kw) == 1 and kw[0][0] == 'count':
            args, kw = args + (kw[0][1],), ()
        if name in ('match', 'fullmatch') and len(args) == 1 and recv.op == 'ext' and recv.args[0] == 're.compile' and \
                len(recv.args[1]) == 1 and recv.args[1][0].op == 'const' and isinstance(recv.args[1][0].args[1], str):
            p = recv.args[1][0].args[1]
            if rx.without_start(p) != p:
                recv = self.ext('re.compile', [self.const(rx.without_start(p))], ())
        if name == 'intersection' and not kw and len(args) == 1:
            return self.inter(recv, args[0])
        if name == 'difference' and len(args) == 1:
            return self.mk('diff', recv, args[0])
        if name == 'copy' and not args:
            return recv
        if recv.op == 'const' and isinstance(recv.args[1], str) and not kw and all(a.op == 'const' for a in args) and \
                name in STR_RET and name not in ('join', 'format', 'translate'):
            try:
                r = getattr(recv.args[1], name)(*[a.args[1] for a in args])
            except Exception:
                r = None
            if isinstance(r, (str, int, bool)):
                return self.const(r)
        if name == 'join' and len(args) == 1 and recv.op == 'const' and recv.args[1] == '' and args[0].op == 'ext' and \
                args[0].args[0] == 'reversed' and self.isstr(args[0].args[1][0]):
            return self.slice(args[0].args[1][0], self.none, self.none, self.const(-1))
        if name == 'join' and len(args) == 1:
            items = self.items_of(args[0])
            if all(i.kind == 'one' and i.guard.n == 1 and not i.binders for i in items):
                parts = []
                for k, i in enumerate(items):
                    if k:
                        parts.append(recv)
                    parts.append(i.term)
                return self.concat(parts)
        if name == 'keys' and not args:
            return recv if recv.op == 'map' else self.mk('meth', recv, name, args, kw)
        if name == 'get' and not kw and (recv.op == 'map' or (self.strip_opt(self.typeof(recv)) or ('',))[0] in ('dict', 'defaultdict')):
            default = args[1] if len(args) > 1 else self.none
            known = self.contains(args[0], recv)
            return self.vterm([(known, self.index(recv, args[0])), (self.NOT(known), default)])
        if name == 'setdefault' and len(args) == 2:
            return self.mk('meth', recv, 'setdefault', args, kw)
        if name in ('startswith', 'endswith') and len(args) == 1 and args[0].op == 'const' and args[0].args[1] == '':
            return self.true
        return self.mk('meth', recv, name, args, kw)

    def union(self, parts):
        flat = []
        for p in parts:
            p = self.strip_wrap(p)
            if p.op == 'union':
                flat.extend(p.args)
            elif p.op == 'seq' and not p.args[1]:
                continue
            else:
                flat.append(p)
        flat = sorted(set(flat), key=lambda t: t.id)
        if not flat:
            return self.seq('set', [])
        if len(flat) == 1:
            return flat[0] if flat[0].op != 'seq' else self.seq('set', list(flat[0].args[1]))
        return self.mk('union', *flat)

    def inter(self, a, b):
        a, b = self.strip_wrap(a), self.strip_wrap(b)
        return self.mk('inter', *sorted([a, b], key=lambda t: t.id))

    # -- predicates

    def truth(self, t):
        """guard "t is true" """
        op = t.op
        if op == 'const':
            return 1 if t.args[1] else 0
        if op == 'bool':
            return t.args[0].n
        if op in ('enum', 'closure', 'bound', 'func', 'class', 'module', 'extref', 'gen', 'new'):
            return 1
        if op == 'rec':
            return 1 if t.args[0].always_truthy() else self.atom(self.mk('truthy', t))
        if op == 'seq':
            if t.args[0] == 'gen':
                return 1
            return self.nonempty(t)
        if op == 'map':
            return self.OR(*[self.close_all(i.guard.n, i.binders) if i.kind in ('pair', 'multi', 'nested') else self.nonempty(i.term)
                             for i in t.args[0]])
        if op == 'v':
            return self.OR(*[self.AND(b.n, self.truth(x)) for b, x in t.args[0]])
        if op == 'lin':
            return self.NOT(self.eq(t, self.const(0)))
        if op == 'call' and counts(t):
            return self.NOT(self.le0(0, {t: 1}))
        if op == 'concat':
            if any(p.op == 'const' and p.args[1] for p in t.args):
                return 1
            return self.OR(*[self.truth(p) for p in t.args])
        if op == 'union':
            return self.OR(*[self.nonempty(p) for p in t.args])
        if op == 'inter':
            return self.overlap(*t.args)
        if op == 'ext':
            n = t.args[0]
            if n == 'iter' or n == 'reversed':
                return 1
            if n in COLL_WRAPPERS and len(t.args[1]) == 1:
                return self.nonempty(t.args[1][0])
            if n == 'len' and len(t.args[1]) == 1:
                return self.nonempty(t.args[1][0])
            if n == 'bool' and len(t.args[1]) == 1:
                return self.truth(t.args[1][0])
        if op == 'call':
            if t.args[0].is_generator:
                return 1
            ty = self.typeof(t)
            if ty and ty[0] == 'iter':
                return 1
            if ty and ty[0] in ('list', 'set', 'dict', 'tuple', 'coll'):
                return self.atom(self.mk('nonempty', t))
        if op == 'meth':
            if t.args[1] == 'isdisjoint' and len(t.args[2]) == 1:
                return self.NOT(self.overlap(t.args[0], t.args[2][0]))
            if t.args[1] == 'issuperset' and len(t.args[2]) == 1:
                return self.subset(t.args[2][0], t.args[0])
            if t.args[1] == 'issubset' and len(t.args[2]) == 1:
                return self.subset(t.args[0], t.args[2][0])
        ty = self.typeof(t)
        if ty and ty[0] == 'cls' and ty[1].always_truthy() and op in ('elem', 'first', 'sym', 'index', 'attr'):
            return 1
        if ty and ty[0] == 'enum':
            return 1
        if counts(t):
            return self.NOT(self.le0(0, {t: 1}))
        if ty == ('int',):
            return self.NOT(self.eq(t, self.const(0)))
        if self.tail(t) and (self.isstr(t.args[0]) or self.islist(t.args[0])):
            return self.cmp('<', t.args[1], self.ext('len', [t.args[0]], ()))
        return self.atom(self.mk('truthy', t))

    def nonempty(self, t):
        """guard "collection has elements" """
        t = self.strip_wrap(t)
        if t.op == 'seq':
            return self.OR(*[self.close_all(i.guard.n if i.kind == 'one' else
                                            self.AND(i.guard.n, self.nonempty(i.term)), i.binders)
                             for i in t.args[1]])
        if t.op == 'call':
            return self.atom(self.mk('nonempty', t))
        if t.op == 'v':
            return self.OR(*[self.AND(b.n, self.nonempty(x)) for b, x in t.args[0]])
        if t.op in ('gen',):
            return self.atom(self.mk('nonempty', t))
        if t.op == 'ext' and t.args[0] == 'range':
            a = t.args[1]
            if len(a) == 1:
                return self.cmp('<', self.const(0), a[0])
            if len(a) == 2:
                return self.cmp('<', a[0], a[1])
        return self.truth(t)

    def overlap(self, a, b):
        a, b = self.strip_wrap(a), self.strip_wrap(b)
        for x, y in ((a, b), (b, a)):
            if x.op == 'seq':
                res = 0
                for i in x.args[1]:
                    g = self.contains(i.term, y) if i.kind == 'one' else self.overlap(i.term, y)
                    res = self.OR(res, self.close_all(self.AND(i.guard.n, g), i.binders))
                return res
            if x.op == 'union':
                return self.OR(*[self.overlap(p, y) for p in x.args])
            if x.op == 'v':
                return self.OR(*[self.AND(g.n, self.overlap(p, y)) for g, p in x.args[0]])
        a, b = sorted([a, b], key=lambda t: t.id)
        return self.atom(self.mk('overlap', a, b))

    def subset(self, a, b):
        """every element of a is in b"""
        a = self.strip_wrap(a)
        x = self.elem(a, 0)
        if a.op == 'seq':
            res = 1
            for i in a.args[1]:
                if i.kind == 'one':
                    bad = self.AND(i.guard.n, self.NOT(self.contains(i.term, b)))
                else:
                    bad = self.AND(i.guard.n, self.NOT(self.subset(i.term, b)))
                res = self.AND(res, self.NOT(self.close_all(bad, i.binders)))
            return res
        return self.NOT(self.exists(x, self.NOT(self.contains(x, b))))

    def isnone(self, t):
        if t is self.none:
            return 1
        if t.op == 'v':
            return self.OR(*[self.AND(b.n, self.isnone(x)) for b, x in t.args[0]])
        if t.op in ('const', 'rec', 'seq', 'map', 'closure', 'bound', 'gen', 'enum', 'bool', 'lin', 'concat', 'new',
                    'func', 'class', 'extref', 'module', 'union', 'inter'):
            return 0
        if t.op == 'ext' and t.args[0] in ('int', 'len', 'str', 'list', 'set', 'dict', 'tuple', 'sorted', 'abs'):
            return 0
        if t.op == 'meth' and t.args[1] in NEVER_NONE or t.op == 'slice':
            return 0
        ty = self.typeof(t)
        if ty:
            if ty[0] == 'none':
                return 1
            if ty[0] == 'opt':
                inner = ty[1]
                if inner and inner[0] == 'cls' and inner[1].always_truthy():
                    return self.NOT(self.truth(t))
                if inner and inner[0] == 'enum':
                    return self.NOT(self.atom(self.mk('truthy', t)))
                if inner and inner[0] == 'str' and t.op == 'attr':
                    bt = self.strip_opt(self.typeof(t.args[0]))
                    if bt and bt[0] == 'cls' and bt[1].qual in self.nonnull_opts:
                        return self.NOT(self.truth(t))
            elif t.op in ('attr', 'elem', 'first', 'index') and ty[0] in ('str', 'int', 'bool', 'list', 'set', 'dict',
                                                                         'cls', 'enum', 'tuple', 'coll', 'iter'):
                return 0
        return self.atom(self.mk('isnone', t))

    def eq(self, a, b):
        if a is b:
            return 1
        if a.op == 'v':
            return self.OR(*[self.AND(g.n, self.eq(x, b)) for g, x in a.args[0]])
        if b.op == 'v':
            return self.OR(*[self.AND(g.n, self.eq(a, x)) for g, x in b.args[0]])
        if a is self.none or b is self.none:
            return self.isnone(b if a is self.none else a)
        if a.op == 'const' and b.op == 'const':
            return 1 if a.args[1] == b.args[1] else 0
        if a.op == 'enum' and b.op == 'enum':
            return 1 if a is b else 0
        if a.op == 'const' and isinstance(a.args[1], bool) or b.op == 'const' and isinstance(b.args[1], bool):
            c, o = (a, b) if a.op == 'const' and isinstance(a.args[1], bool) else (b, a)
            ty = self.typeof(o)
            if o.op == 'bool' or ty and ty[0] == 'bool':
                return self.truth(o) if c.args[1] else self.NOT(self.truth(o))
        if a.op == 'bool' or b.op == 'bool':
            # bool(x) == bool(y)
            x, y = self.truth(a), self.truth(b)
            if (a.op == 'bool' or self.typeof(a) == ('bool',)) and (b.op == 'bool' or self.typeof(b) == ('bool',)):
                return self.bdd.ite(x, y, self.NOT(y))
        ta, tb = self.typeof(a), self.typeof(b)
        if ta == ('bool',) and tb == ('bool',):
            x, y = self.truth(a), self.truth(b)
            return self.bdd.ite(x, y, self.NOT(y))
        if self.isnum(a) or self.isnum(b):
            d = self.linadd(a, b, -1)
            if d.op == 'const':
                return 1 if d.args[1] == 0 else 0
            c, m = self.aslin(d)
            # len(x) == 0
            if c == 0 and len(m) == 1:
                (t, k), = m.items()
                if t.op == 'ext' and t.args[0] == 'len':
                    return self.NOT(self.nonempty(t.args[1][0]))
            if len(m) == 1:
                (t, k), = m.items()
                if self.halves(t):
                    return self.both(t) if c == -2 * k else self.NOT(self.both(t)) if c == -k else 0
                if t.op == 'ext' and t.args[0] == 'len' and c * k > 0:
                    return 0
                if counts(t) and c * k >= 0:
                    return self.le0(0, {t: 1}) if c == 0 else 0
            first = min(m, key=lambda t: t.id)
            if m[first] < 0:
                c, m = -c, {t: -k for t, k in m.items()}
            return self.atom(self.mk('eq0', self.lin(c, m)))
        for c, o in ((a, b), (b, a)):
            if c.op == 'const' and c.args[1] == '' and self.isstr(o):
                return self.NOT(self.truth(o))
            if c.op == 'seq' and not c.args[1] and (self.islist(o) or o.op in ('seq',)):
                return self.NOT(self.nonempty(o))
        if a.op == 'seq' and b.op == 'seq' and a.args[0] == b.args[0] and a.args[0] in ('tuple', 'list'):
            ia, ib = a.args[1], b.args[1]
            if all(i.kind == 'one' and i.guard.n == 1 and not i.binders for i in ia + ib):
                if len(ia) != len(ib):
                    return 0
                return self.AND(*[self.eq(x.term, y.term) for x, y in zip(ia, ib)])
        if {a.op, b.op} == {'enum', 'rec'} or {a.op, b.op} == {'const', 'enum'}:
            return 0
        # set(x) of size one etc. are left opaque
        a, b = sorted([a, b], key=lambda t: t.id)
        if b.op == 'const' or b.op == 'enum':
            pass
        elif a.op in ('const', 'enum'):
            a, b = b, a
        return self.atom(self.mk('eq', a, b))

    def cmp(self, op, a, b):
        if op == '>':
            return self.cmp('<', b, a)
        if op == '>=':
            return self.cmp('<=', b, a)
        for x in (a, b):
            if x.op == 'v':
                if x is a:
                    return self.OR(*[self.AND(g.n, self.cmp(op, y, b)) for g, y in a.args[0]])
                return self.OR(*[self.AND(g.n, self.cmp(op, a, y)) for g, y in b.args[0]])
        ta, tb = self.typeof(a), self.typeof(b)
        if ta and ta[0] == 'set' or tb and tb[0] == 'set':
            if op == '<=':
                return self.subset(a, b)
            return self.AND(self.subset(a, b), self.NOT(self.eq(a, b)))
        if ta and ta[0] == 'str' or tb and tb[0] == 'str':
            return self.atom(self.mk('cmp' + op, a, b))
        # min/max are expanded
        if a.op == 'min':
            return self.OR(*[self.cmp(op, x, b) for x in a.args])
        if a.op == 'max':
            return self.AND(*[self.cmp(op, x, b) for x in a.args])
        if b.op == 'min':
            return self.AND(*[self.cmp(op, a, x) for x in b.args])
        if b.op == 'max':
            return self.OR(*[self.cmp(op, a, x) for x in b.args])
        d = self.linadd(a, b, -1)
        c, m = self.aslin(d)
        isfloat = ta == ('float',) or tb == ('float',) or isinstance(c, float) or \
            any(self.typeof(t) == ('float',) for t in m)
        if not m:
            return 1 if (c < 0 if op == '<' else c <= 0) else 0
        if isfloat:
            first = min(m, key=lambda t: t.id)
            if m[first] > 0:
                return self.atom(self.mk('ltf' if op == '<' else 'lef', self.lin(c, m)))
            n = self.lin(-c, {t: -k for t, k in m.items()})
            return self.NOT(self.atom(self.mk('lef' if op == '<' else 'ltf', n)))
        if op == '<':
            c += 1
        return self.le0(c, m)

    def halves(self, t):
        """number of parts of the text split once: one or two"""
        if t.op != 'ext' or t.args[0] != 'len':
            return False
        s = t.args[1][0]
        if s.op != 'meth' or s.args[1] not in ('split', 'rsplit') or len(s.args[2]) + len(s.args[3]) != 2:
            return False
        most = s.args[2][1] if len(s.args[2]) == 2 else dict(s.args[3]).get('maxsplit')
        return most is not None and most.op == 'const' and most.args[1] == 1 and bool(s.args[2]) and \
            s.args[2][0] is not self.none

    def both(self, t):
        return self.atom(self.mk('eq0', self.lin(-2, {t: 1})))

    def le0(self, c, m):
        """c + m <= 0, integers"""
        for t, k in m.items():
            if t.op == 'ext' and t.args[0] == 'abs':
                rest = self.lin(c, {u: j for u, j in m.items() if u is not t})
                both = [self.cmp('<=', self.linadd(rest, t.args[1][0], j), self.const(0)) for j in (k, -k)]
                return self.AND(*both) if k > 0 else self.OR(*both)
        if len(m) == 1:
            (t, k), = m.items()
            if self.halves(t):
                one, two = c + k <= 0, c + 2 * k <= 0
                return (1 if one else 0) if one == two else self.both(t) if two else self.NOT(self.both(t))
            if t.op == 'ext' and t.args[0] == 'len':
                if k > 0:
                    if c > 0:
                        return 0
                    if -c // k == 0:
                        return self.NOT(self.nonempty(t.args[1][0]))
                else:
                    if c <= 0:
                        return 1
                    if -(-c // -k) == 1:
                        return self.nonempty(t.args[1][0])
            if counts(t):
                # never negative
                if k > 0 and c > 0:
                    return 0
                if k < 0 and c <= 0:
                    return 1
            if t.op == 'meth' and t.args[1] in ('find', 'rfind') and abs(k) == 1:
                # never less than -1
                missing = lambda: self.atom(self.mk('eq0', self.lin(1, {t: 1})))
                if k > 0 and c > 0:
                    return missing() if c == 1 else 0
                if k < 0 and c <= 0:
                    return self.NOT(missing()) if c == 0 else 1
        first = min(m, key=lambda t: t.id)
        if m[first] > 0:
            return self.atom(self.mk('le', self.lin(c, m)))
        return self.NOT(self.atom(self.mk('le', self.lin(-c + 1, {t: -k for t, k in m.items()}))))

    def contains(self, x, coll):
        """x in coll"""
        if x.op == 'v':
            return self.OR(*[self.AND(g.n, self.contains(y, coll)) for g, y in x.args[0]])
        ty = self.typeof(coll)
        if not (ty and ty[0] == 'str'):
            coll = self.strip_wrap(coll)
        if coll.op == 'v':
            return self.OR(*[self.AND(g.n, self.contains(x, y)) for g, y in coll.args[0]])
        if coll.op == 'seq':
            res = 0
            for i in coll.args[1]:
                if i.kind == 'one':
                    g = self.AND(i.guard.n, self.eq(x, i.term))
                else:
                    g = self.AND(i.guard.n, self.contains(x, i.term))
                res = self.OR(res, self.close_all(g, i.binders))
            return res
        if coll.op == 'map':
            res = 0
            for i in coll.args[0]:
                if i.kind in ('pair', 'multi', 'nested'):
                    g = self.AND(i.guard.n, self.eq(x, i.term.args[0]))
                else:
                    g = self.AND(i.guard.n, self.contains(x, i.term))
                res = self.OR(res, self.close_all(g, i.binders))
            return res
        if coll.op == 'union':
            return self.OR(*[self.contains(x, p) for p in coll.args])
        if coll.op == 'inter':
            return self.AND(*[self.contains(x, p) for p in coll.args])
        if coll.op == 'diff':
            return self.AND(self.contains(x, coll.args[0]), self.NOT(self.contains(x, coll.args[1])))
        if coll.op == 'meth' and coll.args[1] == 'keys':
            return self.contains(x, coll.args[0])
        if coll.op == 'const' and isinstance(coll.args[1], str):
            if x.op == 'const' and isinstance(x.args[1], str):
                return 1 if x.args[1] in coll.args[1] else 0
            if x.op != 'elem' and len(coll.args[1]) < 4:
                s = coll.args[1]
                parts = {s[i:j] for i in range(len(s) + 1) for j in range(i, len(s) + 1)}
                return self.OR(*[self.eq(x, self.const(p)) for p in sorted(parts)])
        if x.op == 'const' and x.args[1] is None:
            ety = self.elemtype(ty)
            if ety and ety[0] in ('str', 'int', 'cls'):
                return 0
        return self.atom(self.mk('in', x, coll))

    # -- quantifiers

    def close_all(self, n, binders):
        """exists elements (innermost binder first)"""
        for x in binders:
            n = self.exists(x, n)
        return n

    def exists(self, x, n):
        """exists x in its collection: n"""
        bdd = self.bdd
        if n == 0:
            return 0
        if n == 1:
            return self.nonempty(x.args[0])
        if x not in self.B(n).fv:
            return self.AND(n, self.nonempty(x.args[0]))
        x, n, _ = self.norm_binder(x, n, None)
        vs = [v for v in bdd.support(n) if x not in self.atoms[v].fv]
        if vs:
            # conditions not depending on the element go out
            for v in vs:
                hi, lo = bdd.restrict(n, v, True), bdd.restrict(n, v, False)
                if lo == 0 or hi == 0 or lo == 1 or hi == 1:
                    return bdd.ite(bdd.var(v), self.exists(x, hi), self.exists(x, lo))
            leaves = {n}
            for v in vs:
                leaves = {r for l in leaves for r in (bdd.restrict(l, v, True), bdd.restrict(l, v, False))}
                if len(leaves) > 12:
                    break
            if len(leaves) <= 12:
                v = min(vs)
                a = bdd.var(v)
                return bdd.ite(a, self.exists(x, bdd.restrict(n, v, True)), self.exists(x, bdd.restrict(n, v, False)))
        # one-point rule: exists x: x == c and ...
        for v in bdd.support(n):
            a = self.atoms[v]
            if a.op == 'eq' and bdd.restrict(n, v, False) == 0:
                for p, q in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
                    if p is x and x not in q.fv:
                        rest = self.subst_n(bdd.restrict(n, v, True), {x: q})
                        return self.AND(self.contains(q, x.args[0]), rest)
        # x in B  <=> overlap
        if n in self.bdd_single_in(x):
            pass
        node = bdd.nodes[n]
        if node[1] == 0 and node[2] == 1:
            a = self.atoms[node[0]]
            if a.op == 'in' and a.args[0] is x and x not in a.args[1].fv:
                return self.overlap(x.args[0], a.args[1])
        # canonical bound variable
        if x.args[1] != 0:
            y = self.elem(x.args[0], 0)
            if y not in self.B(n).fv:
                n = self.subst_n(n, {x: y})
                return self.exists(y, n)
        # disjunction of cubes is kept as one formula
        return self.atom(self.mk('exists', x, self.B(n)))

    def bdd_single_in(self, x):
        return ()

    def first(self, x, n):
        """the first element of collection with property n"""
        x, n, _ = self.norm_binder(x, n, None)
        for v, val in self.bdd.forced(n).items():
            if x not in self.atoms[v].fv:
                n = self.bdd.restrict(n, v, val)
        ty = self.strip_opt(self.typeof(x.args[0]))
        if n == 1 and x.args[0].op not in ('ext', 'gen', 'while') and ty and ty[0] in ('list', 'tuple', 'str'):
            return self.index(x.args[0], self.const(0))
        return self.mk('first', x, self.B(n))

    def norm_binder(self, x, n, term):
        """position used only to take element at it -> the element itself"""
        it = x.args[0]
        if not (it.op == 'ext' and it.args[0] == 'range' and len(it.args[1]) <= 2):
            return x, n, term
        b = self.B(n)
        if x not in b.fv and (term is None or x not in term.fv):
            return x, n, term
        found = set()
        seen = set()

        def scan(a):
            if isinstance(a, B):
                if x in a.fv:
                    for v in self.bdd.support(a.n):
                        scan(self.atoms[v])
            elif isinstance(a, Item):
                scan(a.guard)
                scan(a.term)
                for y in a.binders:
                    scan(y.args[0])
            elif isinstance(a, tuple):
                for y in a:
                    scan(y)
            elif isinstance(a, Term):
                if x not in a.fv or a in seen:
                    return
                seen.add(a)
                if a is x:
                    found.add(None)
                    return
                if a.op == 'index' and x not in a.args[0].fv:
                    c, m = self.aslin(a.args[1])
                    if m == {x: 1}:
                        found.add((a.args[0], c))
                        return
                for y in a.args:
                    scan(y)
        scan(b)
        scan(term)
        if len(found) != 1 or None in found:
            return x, n, term
        (coll, off), = found
        if len(it.args[1]) == 1:
            lo, hi = self.const(0), it.args[1][0]
        else:
            lo, hi = it.args[1]
        lo = self.linadd(lo, self.const(off))
        hi = self.linadd(hi, self.const(off))
        if lo.op != 'const' or lo.args[1] < 0:
            return x, n, term
        rest = self.linadd(hi, self.ext('len', [coll], ()), -1)
        if rest.op != 'const' or rest.args[1] > 0:
            return x, n, term
        part = self.slice(coll, lo, self.none if rest.args[1] == 0 else rest, self.none)
        y = self.elem(part, x.args[1])
        m = {self.index(coll, self.linadd(x, self.const(off))): y}
        return y, self.subst_n(n, m), None if term is None else self.subst(term, m)

    # -- substitution

    def given(self, t, n):
        """the term when the condition holds: tests it decides are replaced with their results"""
        m = {}
        for v, val in self.bdd.forced(n).items() if n > 1 else ():
            a = self.atoms[v]
            if any(x.op in ('elem', 'phi') for x in a.fv):
                continue
            m[a] = self.const(val)
        return self.subst(t, m) if m else t

    def subst_n(self, n, m):
        if n < 2:
            return n
        b = self.B(n)
        if not touches(b.fv, m):
            return n
        cache = self.memo(m, 0)

        def walk(n):
            if n < 2:
                return n
            if n in cache:
                return cache[n]
            var, lo, hi = self.bdd.nodes[n]
            a = self.subst_atom(self.atoms[var], m)
            r = self.bdd.ite(a, walk(hi), walk(lo))
            cache[n] = r
            return r
        return walk(n)

    def memo(self, m, kind):
        """results of the same substitution"""
        key = frozenset((k.id, v.id) for k, v in m.items())
        r = self.substituted.get(key)
        if r is None:
            r = self.substituted[key] = {}, {}, {}
        return r[kind]

    def subst_atom(self, a, m):
        if a in m:
            return self.truth(m[a])
        if not touches(a.fv, m):
            return self.atom(a)
        cache = self.memo(m, 1)
        r = cache.get(a)
        if r is None:
            r = cache[a] = self.subst_atom_new(a, m)
        return r

    def subst_atom_new(self, a, m):
        s = lambda t: self.subst(t, m)
        op = a.op
        if op == 'truthy':
            return self.truth(s(a.args[0]))
        if op == 'nonempty':
            return self.nonempty(s(a.args[0]))
        if op == 'isnone':
            return self.isnone(s(a.args[0]))
        if op == 'eq':
            return self.eq(s(a.args[0]), s(a.args[1]))
        if op == 'in':
            return self.contains(s(a.args[0]), s(a.args[1]))
        if op == 'overlap':
            return self.overlap(s(a.args[0]), s(a.args[1]))
        if op == 'eq0':
            return self.eq(s(a.args[0]), self.const(0))
        if op == 'le':
            return self.cmp('<=', s(a.args[0]), self.const(0))
        if op in ('ltf', 'lef'):
            return self.cmp('<' if op == 'ltf' else '<=', s(a.args[0]), self.const(0.0))
        if op == 'exists':
            x, body = a.args
            it = s(x.args[0])
            y = self.elem(it, x.args[1])
            m2 = {k: v for k, v in m.items() if k is not x}
            if any(y in v.fv for v in m2.values()):
                y = self.elem(it, 50 + len(m2))
            m2[x] = y
            return self.exists(y, self.subst_n(body.n, m2))
        if op in ('cmp<', 'cmp<='):
            return self.cmp(op[3:], s(a.args[0]), s(a.args[1]))
        return self.atom(self.mk(op, *[self.subst_any(x, m) for x in a.args]))

    def subst_any(self, a, m):
        if isinstance(a, Term):
            return self.subst(a, m)
        if isinstance(a, B):
            return self.B(self.subst_n(a.n, m))
        if isinstance(a, Item):
            if any(b in m for b in a.binders):
                m = {k: v for k, v in m.items() if k not in a.binders}
            bs = []
            m = dict(m)
            # outer binders are the last ones
            for b in reversed(a.binders):
                nb = self.elem(self.subst(b.args[0], m), b.args[1]) if touches(b.args[0].fv, m) else b
                if nb is not b:
                    m[b] = nb
                bs.append(nb)
            return Item(self.B(self.subst_n(a.guard.n, m)), tuple(reversed(bs)), a.kind, self.subst(a.term, m))
        if isinstance(a, tuple):
            return tuple(self.subst_any(x, m) for x in a)
        return a

    def subst(self, t, m):
        if t in m:
            return m[t]
        if not touches(t.fv, m):
            return t
        cache = self.memo(m, 2)
        r = cache.get(t)
        if r is None:
            r = cache[t] = self.subst_new(t, m)
        return r

    def subst_new(self, t, m):
        op = t.op
        args = t.args
        s = lambda x: self.subst_any(x, m)
        if op == 'elem':
            return self.elem(s(args[0]), args[1])
        if op == 'attr':
            return self.attr(s(args[0]), args[1])
        if op == 'index':
            return self.index(s(args[0]), s(args[1]))
        if op == 'slice':
            return self.slice(*[s(x) for x in args])
        if op == 'concat':
            return self.concat([s(x) for x in args])
        if op == 'lin':
            r = self.const(args[0])
            for x, c in args[1]:
                r = self.linadd(r, self.mul(self.const(c), s(x)))
            return r
        if op == 'add':
            return self.add(s(args[0]), s(args[1]))
        if op == 'meth':
            return self.meth(s(args[0]), args[1], s(args[2]), s(args[3]))
        if op == 'ext':
            return self.ext(args[0], s(args[1]), s(args[2]))
        if op == 'bool':
            return self.bool_term(self.subst_n(args[0].n, m))
        if op == 'union':
            return self.union([s(x) for x in args])
        if op == 'inter':
            return self.inter(s(args[0]), s(args[1]))
        if op == 'seq':
            return self.seq(args[0], [s(i) for i in args[1]])
        if op == 'first':
            x, body = args
            y = self.elem(s(x.args[0]), x.args[1])
            m2 = {k: v for k, v in m.items() if k is not x}
            m2[x] = y
            return self.mk('first', y, self.B(self.subst_n(body.n, m2)))
        if op in ('min', 'max'):
            return self.ext(op, [s(x) for x in args], ())
        if op == 'v':
            return self.vterm([(b.n, x) for b, x in s(args[0])])
        if op == 'map':
            return self.mk('map', tuple(i for i in s(args[0]) if i.guard.n != 0))
        r = self.mk(op, *[s(x) for x in args])
        if t._typed and not r._typed:
            r._typed, r._typ = True, t._typ
        return r

    def vterm(self, alts):
        """term for the guarded alternatives"""
        merged = {}
        for n, t in alts:
            if n and t.op == 'v':
                for b, x in t.args[0]:
                    m = self.AND(n, b.n)
                    if m:
                        merged[x] = self.OR(merged.get(x, 0), m)
            elif n:
                merged[t] = self.OR(merged.get(t, 0), n)
        if len(merged) > 1:
            self.merge_replaced(merged)
            self.merge_stripped(merged)
            self.merge_extremes(merged)
            self.merge_stored(merged)
        if len(merged) == 1:
            return next(iter(merged))
        if merged and all(t.op == 'seq' and t.args[0] != 'tuple' for t in merged) and \
                len({t.args[0] for t in merged}) == 1:
            return self.collapse([(n, t) for t, n in merged.items()])
        if merged and all(t.op in ('bool',) or t.op == 'const' and isinstance(t.args[1], bool) for t in merged):
            return self.bool_term(self.OR(*[self.AND(n, self.truth(t)) for t, n in merged.items()]))
        return self.mk('v', tuple((self.B(n), t) for t, n in sorted(merged.items(), key=lambda p: p[0].id)))

    def merge_replaced(self, merged):
        """x when it doesn't contain the text is the same as x.replace(text, other)"""
        for t in list(merged):
            if t.op == 'meth' and t.args[1] == 'replace' and len(t.args[2]) == 2 and not t.args[3]:
                x, old = t.args[0], t.args[2][0]
                if x in merged and old.op == 'const' and old.args[1] != '' and \
                        self.AND(merged[x], self.contains(old, x)) == 0:
                    merged[t] = self.OR(merged[t], merged.pop(x))

    def merge_stripped(self, merged):
        """x[:-len(s)] when there is s, otherwise x: without as many characters as there are in s"""
        for t in list(merged):
            if t.op != 'slice' or t not in merged or t.args[3] is not self.none or t.args[2].op != 'lin':
                continue
            x, lo, hi, _ = t.args
            c, m = self.aslin(hi)
            if c or len(m) != 1:
                continue
            (size, k), = m.items()
            if k != -1 or size.op != 'ext' or size.args[0] != 'len':
                continue
            some = self.truth(size.args[1][0])
            whole = self.slice(x, lo, self.none, self.none)
            if whole in merged and self.AND(merged[whole], some) == 0 and self.AND(merged[t], self.NOT(some)) == 0:
                n = self.OR(merged.pop(t), merged.pop(whole))
                to = self.slice(x, lo, self.linadd(self.ext('len', [x], ()), hi, 1), self.none)
                merged[to] = self.OR(merged.get(to, 0), n)

    def merge_stored(self, merged):
        """the greater (less) of two numbers put at the same place"""
        groups = {}
        for t in merged:
            if t.op == 'mutated' and t.args[1] in ('setitem', 'nested setitem') and len(t.args[2]) > 1:
                groups.setdefault((t.args[0], t.args[1], t.args[2][:-1]), []).append(t)
        for (base, name, place), ts in groups.items():
            if len(ts) < 2:
                continue
            values = {t.args[2][-1]: merged[t] for t in ts}
            self.merge_extremes(values)
            if len(values) < len(ts):
                for t in ts:
                    del merged[t]
                for x, n in values.items():
                    t = self.mk('mutated', base, name, (*place, x))
                    t._typed, t._typ = True, self.typeof(base)
                    merged[t] = n

    def merge_extremes(self, merged):
        """the greater (less) of two numbers"""
        if len(merged) > 8:
            return
        orders = ('le', 'lef', 'ltf')
        for x in list(merged):
            for y in list(merged):
                if x is y or x not in merged or y not in merged:
                    continue
                gx, gy = merged[x], merged[y]
                common = self.bdd.support(gx) & self.bdd.support(gy)
                if not any(self.atoms[v].op in orders for v in common):
                    continue
                if not (self.isnum(x) and self.isnum(y)):
                    continue
                for p, name in ((self.cmp('<', x, y), 'min'), (self.cmp('<=', x, y), 'min'),
                                (self.cmp('<', y, x), 'max'), (self.cmp('<=', y, x), 'max')):
                    # x is taken only with p, and y instead of it without
                    vs = self.bdd.support(p) if p > 1 else ()
                    if len(vs) != 1 or self.AND(gx, self.NOT(p)):
                        continue
                    v, = vs
                    g = self.OR(self.bdd.restrict(gx, v, True), self.bdd.restrict(gx, v, False))
                    if self.AND(g, self.NOT(p), self.NOT(gy)) == 0 and (y.op == 'const' or self.AND(gy, self.NOT(g)) == 0):
                        break
                else:
                    continue
                del merged[x], merged[y]
                rest = self.AND(gy, self.NOT(g))
                if rest:
                    merged[y] = rest
                t = self.ext(name, [x, y], ())
                merged[t] = self.OR(merged.get(t, 0), g)

    def collapse(self, alts):
        """alternatives that are literal sequences -> one sequence with guarded items"""
        kind = alts[0][1].args[0]
        lists = [[Item(self.B(self.AND(n, i.guard.n)), i.binders, i.kind, i.term) for i in t.args[1]]
                 for n, t in alts]
        res = []
        # common items at the same places are merged
        while any(lists):
            lists = [l for l in lists if l]
            head = lists[0][0]
            same = [l for l in lists if (l[0].binders, l[0].kind, l[0].term) == (head.binders, head.kind, head.term)]
            n = self.OR(*[l[0].guard.n for l in same])
            res.append(Item(self.B(n), head.binders, head.kind, head.term))
            for l in same:
                l.pop(0)
        return self.seq(kind, res)


def touches(fv, m):
    for k in m:
        if k in fv:
            return True
        if k.op not in ('elem', 'phi') and (not k.fv or not k.fv.isdisjoint(fv)):
            return True
    return False


class Item:
    """Item of the literal sequence: guard, bound elements (innermost first), 'one' or 'star', term"""
    __slots__ = ('guard', 'binders', 'kind', 'term')

    def __init__(self, guard, binders, kind, term):
        self.guard = guard
        self.binders = binders
        self.kind = kind
        self.term = term

    def key(self):
        return (self.term.id, self.guard.n, self.kind, tuple(b.id for b in self.binders))

    def __eq__(self, o):
        return isinstance(o, Item) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def free(self):
        fv = self.guard.fv | self.term.fv
        for b in self.binders:
            fv = (fv - {b}) | b.args[0].fv
        return fv, self.guard.opq or self.term.opq


# -- rendering

def show(t, depth=0):
    if isinstance(t, Item):
        r = show(t.term, depth)
        if t.kind == 'star':
            r = '*' + r
        if t.binders:
            r += ' for ' + ' '.join('.' for b in t.binders)
        return r
    if not isinstance(t, Term):
        return repr(t)
    if depth > 6:
        return '…'
    d = depth + 1
    op, a = t.op, t.args
    s = lambda x: show(x, d)
    if op == 'const':
        return repr(a[1])
    if op == 'sym':
        return a[0]
    if op == 'attr':
        return f'{s(a[0])}.{a[1]}'
    if op == 'index':
        return f'{s(a[0])}[{s(a[1])}]'
    if op == 'slice':
        f = lambda x: '' if x.op == 'const' and x.args[1] is None else s(x)
        return f'{s(a[0])}[{f(a[1])}:{f(a[2])}' + (f':{f(a[3])}' if f(a[3]) else '') + ']'
    if op == 'elem':
        return f'∈{s(a[0])}' + ("'" * a[1])
    if op == 'first':
        return f'first({s(a[0])})'
    if op == 'enum':
        return f'{a[0].name}.{a[1]}'
    if op == 'lin':
        r = ''
        for x, c in a[1]:
            r += (' + ' if c > 0 else ' - ') + ('' if abs(c) == 1 else f'{abs(c)}*') + s(x)
        if a[0]:
            r += (' + ' if a[0] > 0 else ' - ') + str(abs(a[0]))
        return '(' + (r[3:] if r.startswith(' + ') else '-' + r[3:]) + ')'
    if op == 'concat':
        return '(' + ' + '.join(s(x) for x in a) + ')'
    if op == 'call':
        return f'{a[0].name}(' + ', '.join(f'{n}={s(x)}' for n, x in a[1]) + ')'
    if op == 'gen':
        return f'gen {a[0].name}(…)'
    if op == 'ext':
        return f'{a[0]}(' + ', '.join([s(x) for x in a[1]] + [f'{n}={s(x)}' for n, x in a[2]]) + ')'
    if op == 'meth':
        return f'{s(a[0])}.{a[1]}(' + ', '.join([s(x) for x in a[2]] + [f'{n}={s(x)}' for n, x in a[3]]) + ')'
    if op == 'rec':
        return f'{a[0].name}(' + ', '.join(f'{n}={s(x)}' for n, x in a[1] if x.op != 'const' or x.args[1] is not None) + ')'
    if op == 'new':
        return f'{a[0].name}(' + ', '.join(f'{n}={s(x)}' for n, x in a[1]) + ')'
    if op == 'seq':
        return {'list': '[', 'tuple': '(', 'set': '{', 'gen': '('}[a[0]] + ', '.join(show(i, d) for i in a[1]) + \
            {'list': ']', 'tuple': ')', 'set': '}', 'gen': ')'}[a[0]]
    if op == 'truthy':
        return s(a[0])
    if op == 'nonempty':
        return f'any({s(a[0])})'
    if op == 'isnone':
        return f'{s(a[0])} is None'
    if op == 'eq':
        return f'{s(a[0])} == {s(a[1])}'
    if op == 'eq0':
        return f'{s(a[0])} == 0'
    if op in ('le', 'lef'):
        return f'{s(a[0])} <= 0'
    if op == 'ltf':
        return f'{s(a[0])} < 0'
    if op == 'in':
        return f'{s(a[0])} in {s(a[1])}'
    if op == 'exists':
        return f'exists({s(a[0])}: …)'
    if op == 'v':
        return '{' + ' | '.join(s(x) for _, x in a[0]) + '}'
    if op in ('phi', 'unk'):
        return f'?{".".join(str(x) for x in a if isinstance(x, (str, int)))}'
    return f'{op}(' + ', '.join(show(x, d) if isinstance(x, (Term, Item)) else
                                (', '.join(show(y, d) for y in x) if isinstance(x, tuple) else
                                 getattr(x, 'name', None) or str(x)) for x in a) + ')'


def show_cube(alg, cube):
    parts = []
    for v, val in sorted(cube.items()):
        s = alg_show(alg, alg.atoms[v])
        parts.append(s if val else f'not ({s})')
    return ' and '.join(parts) or 'always'


def alg_show(alg, a):
    if a.op == 'exists':
        cube = alg.bdd.cube(a.args[1].n)
        return f'exists {show(a.args[0])}: ({show_cube(alg, cube) if cube is not None else "never"})'
    return show(a)

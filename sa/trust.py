"""
Differences that can be trusted.

A value (or condition) of the code that differs from the one of the reference is a violation only if the two differ
in particular places, and what stands there is known to be different: another constant, another variable or
attribute, a part dropped or added, neighbour operation (lower/upper, startswith/endswith...). Expressions of wholly
different shapes may still mean the same, so the difference is left undecided.
"""

from .alg import B, Item, Term

FAMILIES = {n: f[0] for f in [
    ('match', 'search', 'fullmatch'), ('startswith', 'endswith'), ('lower', 'upper', 'title', 'capitalize', 'swapcase'),
    ('find', 'rfind'), ('partition', 'rpartition'), ('strip', 'lstrip', 'rstrip'), ('split', 'rsplit'),
    ('islower', 'isupper', 'istitle'), ('isdigit', 'isalpha', 'isalnum'), ('start', 'end'), ('min', 'max'), ('heapq.nlargest', 'heapq.nsmallest'), ('heapq.heappushpop', 'heapq.heapreplace')] for n in f}

# operations that change the value: with one and without one are different
CHANGING = {'lower', 'upper', 'title', 'capitalize', 'swapcase', 'casefold', 'strip', 'lstrip', 'rstrip', 'replace',
            'translate', 'sub', 'union', 'intersection', 'difference', 'removeprefix', 'removesuffix', 'get'}
CHANGING_EXT = {'abs', 'int', 're.escape', 'sorted', 'reversed'}

# operations the order of which matters
ORDERED = {'lower', 'upper', 'title', 'capitalize', 'swapcase', 'casefold', 'replace', 'translate'}

ASYMMETRIC = {'ngram', 'root_score', 'rough_affix_score', 'precise_affix_score'}     # of two words
COMMUTATIVE = {'union', 'inter', 'min', 'max', 'mul', 'overlap'}
LEAVES = {'const', 'sym', 'enum', 'extref', 'func', 'class', 'arg', 'hole', 'enumcls', 'hist', 'bound', 'module'}

SAME_AS_WORD = {'text'}

LIMIT = 4           # places of difference
DEPTH = 40


class Nearness:
    """diff(a, b): list of places where the terms differ; None if they are not comparable"""

    def __init__(self, comparer):
        self.cmp = comparer
        self.alg = comparer.alg
        self.cache = {}

    def diff(self, a, b, depth=0):
        if a is b:
            return []
        if depth > DEPTH:
            return None
        if isinstance(a, Term) and isinstance(b, Term):
            key = (a, b)
            if key not in self.cache:
                self.cache[key] = None
                self.cache[key] = self.limit(self.terms(a, b, depth + 1))
            return self.cache[key]
        if isinstance(a, B) and isinstance(b, B):
            return self.guards(a.n, b.n, depth + 1)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return None
            return self.all([self.diff(x, y, depth + 1) for x, y in zip(a, b)])
        if isinstance(a, Item) and isinstance(b, Item):
            return self.items(a, b, depth)
        if type(a) is not type(b):
            return None
        return [] if a == b else [(a, b)]

    @staticmethod
    def all(parts):
        res = []
        for p in parts:
            if p is None:
                return None
            res += [x for x in p if x not in res]
        return res

    @staticmethod
    def limit(d):
        return None if d is None or len(d) > LIMIT else d

    def leaf(self, t):
        while t.op == 'attr':
            if not self.known_attr(t):
                return False
            t = t.args[0]
        return t.op in LEAVES

    def known_attr(self, t):
        """attribute that the reference knows, or a field that is declared"""
        if t.args[1] in self.alg.prog.reference_attrs:
            return True
        ty = self.alg.strip_opt(self.alg.typeof(t.args[0]))
        return bool(ty) and ty[0] == 'cls' and ty[1].is_dataclass and bool(ty[1].annotation(t.args[1]))

    def constant(self, t):
        return t.op in ('const', 'enum') or t.op == 'seq' and not t.args[1] or t.op == 'map' and not t.args[0]

    def simple(self, t):
        """variable, attribute, element, or constant position of it"""
        while True:
            if t.op == 'attr' and self.known_attr(t):
                t = t.args[0]
            elif t.op == 'index' and t.args[1].op == 'const':
                t = t.args[0]
                while t.op == 'slice':
                    t = t.args[0]
                if t.op == 'meth' and t.args[1] == 'split':
                    # part of a text
                    return True
            else:
                return t.op in LEAVES and t.op != 'hole' or t.op == 'elem'

    def another(self, a, b):
        """parameter (or what it has) and element of a collection made of it; text of a form is the word itself"""
        def root(t):
            while t.op in ('attr', 'index'):
                if t.op == 'attr' and t.args[1] in SAME_AS_WORD:
                    return None
                t = t.args[0]
            return t.op
        return {root(a), root(b)} == {'sym', 'elem'} and self.alg.typeof(a) == self.alg.typeof(b) is not None

    def got(self, t):
        """attribute of what an anchored call gives"""
        if t.op not in ('attr', 'index'):
            return False
        while t.op == 'attr' or t.op == 'index' and t.args[1].op == 'const':
            t = t.args[0]
        return t.op == 'call' and t.args[0].qual in self.cmp.anchors

    def nothing(self, a, b):
        """None, and result of a call that is never None"""
        if a is not self.alg.none:
            return False
        ty = self.alg.typeof(b)
        if b.op == 'index' and ty == ('str',):
            return True
        if b.op != 'call' or b.args[0].qual not in self.cmp.anchors:
            return False
        return bool(ty) and ty[0] not in ('opt', 'none', 'union')

    def falsy(self, t):
        return t.op == 'const' and not t.args[1] or t.op == 'seq' and not t.args[1] or t.op == 'map' and not t.args[0]

    def terms(self, a, b, depth):
        alg = self.alg
        if a.op == 'v' or b.op == 'v':
            return self.alternatives(a, b, depth)
        if self.falsy(a) and self.falsy(b):
            return None
        if self.leaf(a) and self.leaf(b):
            if a.op == 'attr' and b.op == 'attr' and a.args[1] == b.args[1]:
                return self.diff(a.args[0], b.args[0], depth)
            if 'bound' in (a.op, b.op):
                if a.op != b.op:
                    return None
            return [(a, b)]
        if self.constant(a) and self.simple(b) or self.constant(b) and self.simple(a):
            return [(a, b)]
        if self.nothing(a, b) or self.nothing(b, a):
            return [(a, b)]
        if self.constant(a) and self.got(b) or self.constant(b) and self.got(a):
            return [(a, b)]
        if self.simple(a) and self.simple(b) and self.another(a, b):
            return [(a, b)]
        boolish = lambda t: t.op == 'bool' or t.op == 'const' and isinstance(t.args[1], bool)
        if boolish(a) and boolish(b):
            if 'const' in (a.op, b.op):
                return [(a, b)]
            return self.guards(alg.truth(a), alg.truth(b), depth)
        if {a.op, b.op} == {'min', 'max'} and set(a.args) == set(b.args):
            return [(a, b)]
        if {a.op, b.op} & {'min', 'max'} and a.op != b.op and self.arithmetic(a) and self.arithmetic(b):
            return [(a, b)]
        if a.op == 'lin' or b.op == 'lin':
            if a.op in ('lin', 'const') and b.op in ('lin', 'const') or alg.isnum(a) and alg.isnum(b):
                return self.numbers(a, b, depth)
        for x, y in ((a, b), (b, a)):
            if x.op == 'index' and y.op == 'elem' and x.args[0] is y.args[0] and x.args[1].op == 'elem' and \
                    x.args[1].args[0] is alg.ext('range', [alg.ext('len', [y.args[0]], ())], ()):
                # taken by number
                return []
        if a.op == b.op:
            f = getattr(self, 'd_' + a.op, None)
            d = f(a, b, depth) if f is not None else self.plain(a, b, depth)
            if d is not None:
                return d
        for x, y in ((a, b), (b, a)):
            if self.changed(x, y) or self.replaced(x, y):
                return [(a, b)]
            if self.unlike(x, y):
                return [(a, b)]
        if a.op in ('concat',) or b.op in ('concat',):
            return self.d_concat(a, b, depth)
        if self.reordered(a, b):
            return [(a, b)]
        return None

    def unlike(self, x, y):
        """operations of different kinds on the same, known to give different things"""
        if x.op == 'meth' and y.op == 'call' and y.args[0].cls is not None and x.args[1] == y.args[0].name and not x.args[2]:
            # of a text, and of the object that knows how it is done in the language
            f = y.args[0]
            args = [v for k, v in y.args[1] if k != 'self']
            return args == [x.args[0]] and any(c is not f.cls and f.name in c.methods for c in self.cmp.eng.prog.subclasses(f.cls))
        if x.op == 'meth' and x.args[1] in ('strip', 'lstrip', 'rstrip') and y.op == 'meth' and y.args[1] == 'replace':
            return x.args[0] is y.args[0] and len(x.args[2]) == 1 and x.args[2][0].op == 'const' and x.args[2][0] is y.args[2][0]
        if y.op == 'seq' and y.args[0] in ('list', 'tuple') and self.leaf(x):
            # with something more in it
            rest = [i for i in y.args[1] if not (i.kind == 'star' and i.term is x and i.guard.n == 1 and not i.binders)]
            return len(rest) == len(y.args[1]) - 1 > 0 and all(i.kind == 'one' and not i.binders and i.guard.n == 1 for i in rest)
        if x.op == 'slice' and y.op == 'ext' and y.args[0] in ('heapq.nlargest', 'heapq.nsmallest') and len(y.args[1]) == 2 and not y.args[2]:
            # the first of them as they happen to be, and the best ones
            return x.args[0] is y.args[1][1] and x.args[0].op == 'mupost'
        if y.op == 'elem' and y.args[0].op == 'elem':
            y = y.args[0]
        if x.op == 'elem':
            x = x.args[0]
        if x.op == 'meth' and x.args[1] in ('search', 'match') and y.op == 'elem' and y.args[0].op == 'meth' and y.args[0].args[1] == 'finditer':
            # only the first one
            return x.args[0] is y.args[0].args[0] and x.args[2] == y.args[0].args[2]
        one, other = self.extreme(x), self.extreme(y)
        return one is not None and other is not None and one[0] != other[0] and one[1:] == other[1:]

    @staticmethod
    def extreme(t):
        """the smallest or the largest -> (which, of what, by what)"""
        if t.op == 'ext' and t.args[0] in ('min', 'max') and len(t.args[1]) == 1:
            return t.args[0], t.args[1][0], dict(t.args[2]).get('key')
        if t.op == 'index' and t.args[1].op == 'const' and t.args[1].args[1] in (0, -1) and t.args[0].op == 'ext' and \
                t.args[0].args[0] == 'sorted':
            kw = dict(t.args[0].args[2])
            back = kw.get('reverse')
            if back is not None and back.op != 'const':
                return None
            last = (t.args[1].args[1] == -1) != bool(back is not None and back.args[1])
            return 'max' if last else 'min', t.args[0].args[1][0], kw.get('key')
        return None

    def step(self, t):
        """operation on a text -> (operation, the text)"""
        if t.op == 'meth' and t.args[1] in ORDERED:
            return (t.args[1], t.args[2], t.args[3]), t.args[0]
        if t.op == 'call' and t.args[0].qual in self.cmp.anchors and 'word' in dict(t.args[1]):
            return (t.args[0], tuple(x for x in t.args[1] if x[0] != 'word')), dict(t.args[1])['word']
        return None, t

    def reordered(self, a, b):
        """the same operations in another order"""
        chains = []
        for t in (a, b):
            steps = []
            while True:
                s, t = self.step(t)
                if s is None:
                    break
                steps.append(s)
            chains.append((steps, t))
        (xs, x), (ys, y) = chains
        return x is y and len(xs) == len(ys) > 1 and xs != ys and set(xs) == set(ys)

    def changed(self, x, y):
        """y is the same value after an operation that changes it"""
        if y.op == 'meth' and y.args[1] in CHANGING:
            if y.args[0] is x or x in y.args[2] or x.op != 'const' and self.changed(x, y.args[0]):
                return True
        if y.op == 'ext' and y.args[0] in CHANGING_EXT and x in y.args[1]:
            return True
        if y.op == 'meth' and y.args[1] == 'join' and y.args[2] and y.args[2][0].op == 'seq':
            parts = y.args[2][0].args[1]
            if len(parts) > 1 and any(i.kind == 'one' and i.guard.n == 1 and i.term is x and not i.binders for i in parts):
                return True
        if y.op == 'index' and y.args[0].op == 'meth' and y.args[0].args[0] is x and y.args[0].args[2] and \
                y.args[0].args[1] in ('split', 'rsplit', 'partition', 'rpartition'):
            return True
        if y.op == 'slice' and (x.op != 'seq'):
            z = y.args[0]
            while z.op == 'ext' and z.args[0] in ('list', 'tuple', 'sorted') and len(z.args[1]) == 1:
                z = z.args[1][0]
            if z is x or y.args[0] is x:
                return True
        if y.op == 'seq' and any(i.kind == 'one' and i.guard.n != 1 and i.term.op == 'elem' and i.term.args[0] is x and
                                 i.binders == (i.term,) for i in y.args[1]):
            # filtered
            return True
        z = x
        while z.op == 'ext' and z.args[0] in ('list', 'tuple') and len(z.args[1]) == 1:
            z = z.args[1][0]
        if y.op == 'seq' and any(i.kind == 'one' and len(i.binders) == 1 and i.binders[0].args[0] in (x, z) and
                                 self.changed(i.binders[0], i.term) for i in y.args[1]):
            # each is changed
            return True
        if y.op == 'map' and len(y.args[0]) > 1 and y.args[0][0].kind == 'star' and y.args[0][0].term is x:
            # more is put there
            return True
        if y.op == 'mu' and len(y.args) > 3 and y.args[2][y.args[1]] is x:
            # only the first time
            return True
        if y.op == 'call' and any(v is x for _, v in y.args[1]) and y.args[0].qual in self.cmp.anchors:
            return True
        if y.op in ('min', 'max', 'union', 'inter', 'mul') and x in y.args:
            return True
        if y.op in ('diff', 'opFloorDiv', 'opDiv', 'opMod') and y.args[0] is x:
            return True
        return False

    def replaced(self, x, y):
        """y is a copy of the object with another value of some attribute"""
        if y.op not in ('rec', 'new') or x.op != 'elem':
            return False
        fields = dict(y.args[1])
        kept = [k for k in fields if self.copied(k, fields) and fields[k].args[0] is x]
        others = [k for k in fields if k not in kept]
        if not kept or not others:
            return False
        src = x.args[0]
        given = dict(src.args[1]).get('word') if src.op == 'call' else None
        return not any(k in SAME_AS_WORD and (given is None or fields[k] is given) for k in others)

    def alternatives(self, a, b, depth):
        alts = lambda t: [(g.n, x) for g, x in t.args[0]] if t.op == 'v' else [(1, t)]
        xs, ys = alts(a), alts(b)
        if a.op == 'v' and b.op == 'v':
            tx, ty = {t: g for g, t in xs}, {t: g for g, t in ys}
            parts = [self.guards(tx[t], ty[t], depth) for t in tx if t in ty]
            mine, their = [t for t in tx if t not in ty], [t for t in ty if t not in tx]
            parts += [self.nearest(t, their, depth) for t in mine]
            if not mine:
                parts.append([(a, b)] if their else [])
            return self.all(parts)
        # one alternative only
        if any(u.op == 'ext' and u.args[0] == 'abs' for u in self.cmp.subterms((a if b.op == 'v' else b,))):
            return None
        parts = [self.diff(x, y, depth) for _, x in xs for _, y in ys]
        if any(p is None for p in parts):
            return None
        return self.all(parts) or [(a, b)]

    def nearest(self, t, others, depth):
        best = None
        for o in others:
            d = self.diff(t, o, depth)
            if d is not None and (best is None or len(d) < len(best)):
                best = d
        return best

    def interval(self, t):
        """number that runs through an interval: (first, last); None for another one"""
        alg = self.alg
        c, m = alg.aslin(t)
        loops = [x for x in m if x.op == 'elem' and x.args[0].op == 'ext' and x.args[0].args[0] == 'range']
        # the inner one
        loops = [x for x in loops if not any(x in y.args[0].fv for y in loops if y is not x)]
        if len(loops) != 1 or abs(m[loops[0]]) != 1 or len(loops[0].args[0].args[1]) > 2:
            return None
        x, = loops
        lo, hi = (alg.const(0), *x.args[0].args[1])[-2:]
        rest = alg.linadd(t, x, -m[x])
        ends = alg.linadd(rest, lo, m[x]), alg.linadd(rest, alg.linadd(hi, alg.const(-1)), m[x])
        return (*(ends if m[x] > 0 else ends[::-1]), x)

    def arithmetic(self, t):
        if t.op in ('min', 'max'):
            return all(self.arithmetic(x) for x in t.args)
        if t.op == 'lin':
            return all(self.arithmetic(x) for x, _ in t.args[1])
        return t.op == 'const' or self.simple(t) or self.counted(t)

    def numbers(self, a, b, depth):
        alg = self.alg
        c, m = alg.aslin(alg.linadd(a, b, -1))
        if not m:
            return [('by', abs(c))]
        x, y = self.interval(a), self.interval(b)
        if x and y and x[2] is not y[2] and (a.op == b.op == 'lin' or (x[0] is y[0]) != (x[1] is y[1])):
            d = [self.numbers(u, v, depth) for u, v in zip(x[:2], y[:2]) if u is not v]
            return [(a, b)] if len(d) == 1 and d[0] else None
        for t, k in m.items():
            if self.length(t) and t.args[1][0].op == 'slice' and \
                    alg.linadd(alg.linadd(a, b, -1), alg.linadd(self.size(t.args[1][0].args[0]), t, -1), k) is alg.const(0):
                # of a part of the list
                return [(a, b)]
            if t.op == 'ext' and t.args[0] == 'abs':
                rest = alg.linadd(alg.linadd(a, b, -1), t, -k)
                if any(alg.linadd(rest, t.args[1][0], j) is alg.const(0) for j in (k, -k)):
                    # signed
                    return [(a, b)]
        pos = [t for t, k in m.items() if k > 0]
        neg = [t for t, k in m.items() if k < 0]
        if len(pos) == len(neg) == 1 and m[pos[0]] == -m[neg[0]] and c == 0:
            return self.diff(pos[0], neg[0], depth)
        if len(pos) == len(neg) == 1 and m[pos[0]] == -m[neg[0]] and pos[0].op == neg[0].op == 'mu' and \
                self.start(pos[0]) is self.start(neg[0]) is not None:
            # counters that begin with the same
            d = self.diff(pos[0], neg[0], depth)
            return None if d is None else d + [x for x in [('by', abs(c))] if x not in d]
        if 1 < len(pos) == len(neg) <= LIMIT and c == 0 and sorted(m[t] for t in pos) == sorted(-m[t] for t in neg):
            d = self.all([self.nearest(t, neg, depth) for t in pos])
            if d is not None:
                return d
        if len(pos) + len(neg) == 1 and c == 0:
            # dropped or added, or with another factor
            return [(a, b)]
        ca, ma = alg.aslin(a)
        cb, mb = alg.aslin(b)
        if set(ma) == set(mb) or all(self.counted(t) and (t.op == 'ext' or t in ma and t in mb) or
                                     t.op != 'elem' and self.simple(t) for t in m):
            return [(a, b)]
        return None

    def start(self, t):
        while t.op == 'mu':
            if len(t.args) < 4:
                return None
            t = t.args[2][t.args[1]] if isinstance(t.args[2], tuple) else t.args[2]
        return t

    def size(self, t):
        """length of a list, or of a part of it"""
        alg = self.alg
        if t.op == 'slice' and t.args[3] is alg.none and \
                all(e is alg.none or e.op == 'const' and e.args[1] * k >= 0 for e, k in zip(t.args[1:3], (1, -1))):
            lo, hi = (0 if e is alg.none else e.args[1] for e in t.args[1:3])
            return alg.linadd(self.size(t.args[0]), alg.const(hi - lo))
        return alg.ext('len', [t], ())

    @staticmethod
    def length(t):
        return t.op == 'ext' and t.args[0] == 'len'

    def counted(self, t):
        """number of a loop, or length of a simple value"""
        if t.op == 'elem':
            return t.args[0].op == 'range' or t.args[0].op == 'ext' and t.args[0].args[0] == 'range'
        return t.op == 'bound' or t.op == 'ext' and t.args[0] == 'len' and \
            (self.simple(t.args[1][0]) or t.args[1][0].op == 'meth' and t.args[1][0].args[1] == 'group')

    def plain(self, a, b, depth):
        if len(a.args) != len(b.args):
            return None
        return self.all([self.diff(x, y, depth) for x, y in zip(a.args, b.args)])

    def d_mutated(self, a, b, depth):
        if a.args[1] == b.args[1] and a.args[1].endswith('setitem') and a.args[2][:-1] != b.args[2][:-1]:
            # numbered in another way
            return None
        return self.plain(a, b, depth)

    def commutative(self, a, b, depth):
        mine = [x for x in a.args if x not in b.args]
        their = [x for x in b.args if x not in a.args]
        if not mine or not their:
            return [(a, b)]
        if len(mine) == len(their):
            return self.all([self.nearest(x, their, depth) for x in mine])
        return None

    d_union = d_inter = d_min = d_max = d_mul = d_overlap = commutative

    def named(self, a, b, depth, args):
        d = self.all([self.diff(x, y, depth) for x, y in zip(*args)])
        if d is None:
            return None
        if len(args[0]) != len(args[1]):
            d = d + [(a, b)]
        return d

    def d_meth(self, a, b, depth):
        if a.args[1] != b.args[1]:
            if {a.args[1], b.args[1]} <= self.cmp.methods():
                d = self.all([self.diff(a.args[0], b.args[0], depth), self.named(a, b, depth, (a.args[2], b.args[2]))])
                return None if d is None else d + [(a.args[1], b.args[1])]
            if FAMILIES.get(a.args[1], 0) != FAMILIES.get(b.args[1], 1):
                return None
            d = self.all([self.diff(a.args[0], b.args[0], depth), self.named(a, b, depth, (a.args[2], b.args[2]))])
            return None if d is None else d + [(a.args[1], b.args[1])]
        return self.all([self.diff(a.args[0], b.args[0], depth), self.named(a, b, depth, (a.args[2], b.args[2])),
                         self.keywords(a.args[3], b.args[3], depth)])

    def keywords(self, a, b, depth):
        a, b = dict(a), dict(b)
        parts = [self.diff(a[k], b[k], depth) for k in a if k in b]
        parts += [[(k,)] for k in set(a) ^ set(b)]
        return self.all(parts)

    def d_ext(self, a, b, depth):
        d = []
        if a.args[0] != b.args[0]:
            if FAMILIES.get(a.args[0], 0) != FAMILIES.get(b.args[0], 1):
                return None
            d = [(a.args[0], b.args[0])]
        return self.all([d, self.named(a, b, depth, (a.args[1], b.args[1])), self.keywords(a.args[2], b.args[2], depth)])

    def d_call(self, a, b, depth):
        f, g = a.args[0], b.args[0]
        x, y = dict(a.args[1]), dict(b.args[1])
        if f is not g:
            known = self.cmp.anchors
            if f.qual not in known and g.qual not in known and f.qual.startswith('spec.') != g.qual.startswith('spec.'):
                # recursive functions taken for the same
                for n in list(x):
                    if n not in y:
                        k = next((k for k in y if k not in x and y[k] is x[n]), None)
                        if k is not None:
                            del x[n], y[k]
                if set(x) != set(y) or len(x) == len(a.args[1]) and (f, g) not in self.cmp.hypotheses and \
                        not any(x[k] is y[k] for k in x):
                    return None
                return self.all([self.diff(x[k], y[k], depth) for k in x])
            if f.qual not in known or g.qual not in known:
                return None
            if set(x) != set(y):
                # another question about the same
                of = [{v for k, v in z.items() if k != 'self' and v.op != 'const'} for z in (x, y)]
                return [(f, g)] if of[0] & of[1] else None
            return self.all([[(f, g)]] + [self.diff(x[k], y[k], depth) for k in x])
        if set(x) != set(y):
            return None
        d = self.all([self.diff(x[k], y[k], depth) for k in x])
        if d is None and f.name in ASYMMETRIC and sorted(t.id for t in x.values()) == sorted(t.id for t in y.values()):
            # in places of one another
            return [(a, b)]
        return d

    def d_rec(self, a, b, depth):
        if a.args[0] is not b.args[0]:
            return [(a.args[0], b.args[0])] if [n for n, _ in a.args[1]] == [n for n, _ in b.args[1]] else None
        x, y = dict(a.args[1]), dict(b.args[1])
        if set(x) != set(y):
            return None
        if x != y and sorted(t.id for t in x.values()) == sorted(t.id for t in y.values()):
            # in places of one another
            return [(a, b)]
        parts = []
        for k in x:
            d = self.diff(x[k], y[k], depth)
            if d is None and self.copied(k, x) and self.copied_too(x[k].args[0], k, y) and self.simple(y[k]):
                # left as in the object it is made from
                d = [(x[k], y[k])]
            parts.append(d)
        return self.all(parts)

    def copied(self, k, fields):
        return fields[k].op == 'attr' and fields[k].args[1] == k

    def copied_too(self, base, k, fields):
        """other fields are taken from the same object"""
        return not (self.copied(k, fields) and fields[k].args[0] is base) and any(self.copied(f, fields) and fields[f].args[0] is base for f in fields)

    d_new = d_rec

    def d_elem(self, a, b, depth):
        if a.args[0] is b.args[0]:
            return [(a, b)]
        return self.diff(a.args[0], b.args[0], depth)

    def d_attr(self, a, b, depth):
        d = self.diff(a.args[0], b.args[0], depth)
        if d is None:
            return None
        if a.args[1] == b.args[1]:
            return d
        return d + [(a.args[1], b.args[1])] if self.known_attr(a) and self.known_attr(b) else None

    def d_index(self, a, b, depth):
        d = self.diff(a.args[0], b.args[0], depth)
        if d is None:
            return None
        e = self.position(a.args[1], b.args[1], a.args[0], b.args[0], depth)
        if e is None and d and a.args[1].op == b.args[1].op == 'const':
            # of different texts
            e = [(a.args[1], b.args[1])]
        return self.all([d, e])

    def d_slice(self, a, b, depth):
        d = self.diff(a.args[0], b.args[0], depth)
        if d is None:
            return None
        none = self.alg.none
        if not d and a.args[3] is b.args[3] is none and \
                (a.args[1] is b.args[2] and a.args[2] is b.args[1] is none or a.args[2] is b.args[1] and a.args[1] is b.args[2] is none):
            # the other part of the text
            return [(a, b)]
        return self.all([d] + [self.position(x, y, a.args[0], b.args[0], depth) for x, y in zip(a.args[1:], b.args[1:])])

    def position(self, x, y, a, b, depth):
        """numbers of position: -1 and len - 1 are the same"""
        if x is y:
            return []
        alg = self.alg
        none = alg.none
        if none in (x, y):
            o = y if x is none else x
            return [(x, y)] if o.op == 'const' or o.op != 'lin' and not (o.op == 'ext' and o.args[0] == 'len') else None
        num = lambda t: t.op in ('lin',) or t.op == 'const' and isinstance(t.args[1], int) or alg.isnum(t)
        if num(x) and num(y):
            c, m = alg.aslin(alg.linadd(x, y, -1))
            if any(t.op == 'ext' and t.args[0] == 'len' and t.args[1][0] in (a, b) for t in m):
                size = alg.ext('len', [a], ())
                if a is not b:
                    return None
                for u, v in ((x, y), (y, x)):
                    (_, k), (i, l) = alg.aslin(u), alg.aslin(v)
                    if k.get(size) == 1 and size not in l and l and i <= 0 and all(n < 0 and self.length(t) for t, n in l.items()):
                        # both from the end
                        return self.numbers(alg.linadd(u, size, -1), v, depth) or None
                return None
            if x.op == y.op == 'const' and (x.args[1] < 0) != (y.args[1] < 0):
                # from the beginning and from the end: the same for some length
                return [(x, y)] if {x.args[1], y.args[1]} == {0, -1} else None
            return self.numbers(x, y, depth)
        return self.diff(x, y, depth)

    def d_concat(self, a, b, depth):
        xs = list(a.args) if a.op == 'concat' else [a]
        ys = list(b.args) if b.op == 'concat' else [b]
        while xs and ys and xs[0] is ys[0]:
            xs.pop(0)
            ys.pop(0)
        while xs and ys and xs[-1] is ys[-1]:
            xs.pop()
            ys.pop()
        if not xs or not ys:
            rest = xs or ys
            return [(a, b)] if len(rest) <= 2 and not any(self.maybe_empty(t) for t in rest) else None
        if len(xs) == len(ys):
            return self.all([self.diff(x, y, depth) for x, y in zip(xs, ys)])
        return None

    def maybe_empty(self, t):
        return False

    def d_seq(self, a, b, depth):
        kind = lambda t: t.args[0] == 'set'
        if kind(a) != kind(b):
            return None
        return self.lists(a, b, a.args[1], b.args[1], depth)

    def d_map(self, a, b, depth):
        return self.lists(a, b, a.args[0], b.args[0], depth)

    def lists(self, a, b, xs, ys, depth):
        xs, ys = list(xs), list(ys)
        while xs and ys and self.items(xs[0], ys[0], depth) == []:
            xs.pop(0)
            ys.pop(0)
        while xs and ys and self.items(xs[-1], ys[-1], depth) == []:
            xs.pop()
            ys.pop()
        if not xs and not ys:
            # list or tuple: rarely means anything
            return None if a.args[0] != b.args[0] else []
        if not xs or not ys:
            return [(a, b)]
        if sorted(i.term.id for i in xs) == sorted(i.term.id for i in ys) and [i.term for i in xs] != [i.term for i in ys]:
            # in another order
            return [(a, b)] if all(i.guard.n == 1 for i in xs + ys) else None
        if len(xs) == len(ys):
            d = self.all([self.items(x, y, depth) for x, y in zip(xs, ys)])
            if d is not None:
                return d
        # each is near to some of the others
        near = lambda x, zs, f: min((d for d in (f(x, z) for z in zs) if d is not None), key=len, default=None)
        mine = [near(x, ys, lambda x, y: self.items(x, y, depth)) for x in xs]
        their = [near(y, xs, lambda y, x: self.items(x, y, depth)) for y in ys]
        d = self.all(mine + their)
        return None if d is None else d or [(a, b)]

    def items(self, x, y, depth):
        alg = self.alg
        for p, q in ((x, y), (y, x)):
            if (p.kind, q.kind) == ('pair', 'multi') and p.binders == q.binders and p.guard.n == q.guard.n:
                (k, v), (l, w) = p.term.args, q.term.args
                if k is l and v is alg.seq('list', [Item(alg.B(1), (), 'one', w)]):
                    # put instead of those there were
                    return [(p.term, q.term)]
            if p.kind == q.kind and not p.binders and len(q.binders) == 1 and q.binders[0] in q.term.fv:
                coll = q.binders[0].args[0]
                if any(p.term is alg.subst(q.term, {q.binders[0]: alg.index(coll, alg.const(n))}) for n in (0, -1)):
                    # one of them, all of them
                    return [(p.term, q.term)]
            if len(p.binders) + 1 == len(q.binders) and p.binders == q.binders[1:]:
                e = q.binders[0]
                for n in (0, -1):
                    by = {e: alg.index(e.args[0], alg.const(n))}
                    if e in q.term.fv and p.term is alg.subst(q.term, by) and p.guard.n == alg.subst_n(q.guard.n, by):
                        return [(p.term, q.term)]
        if x.kind != y.kind or len(x.binders) != len(y.binders):
            return None
        return self.all([self.diff(u, v, depth) for u, v in zip(x.binders, y.binders)] +
                        [self.diff(x.term, y.term, depth), self.guards(x.guard.n, y.guard.n, depth)])

    def d_hof(self, a, b, depth):
        mine = [x for x in a.args[0] if x not in b.args[0]]
        their = [x for x in b.args[0] if x not in a.args[0]]
        d = self.diff(a.args[1], b.args[1], depth)
        if d is None:
            return None
        return self.sets(mine, their, depth, d, (a, b))

    def sets(self, mine, their, depth, d, pair):
        if not mine and not their:
            return d
        if not mine or not their:
            return d + [pair]
        parts = [self.nearest(x, their, depth) for x in mine]
        res = self.all(parts)
        if res is not None and len(res) > 1:
            res = [pair]
        return None if res is None else d + res

    def d_eq(self, a, b, depth):
        (x, y), (u, v) = a.args, b.args
        ways = [self.all([self.diff(x, u, depth), self.diff(y, v, depth)]), self.all([self.diff(x, v, depth), self.diff(y, u, depth)])]
        return min((w for w in ways if w is not None), key=len, default=None)

    def d_in(self, a, b, depth):
        (x, y), (u, v) = a.args, b.args
        d = self.plain(a, b, depth)
        if d is None and (x is v and y is u or x is v and self.near_elem(y, u) or y is u and self.near_elem(x, v)):
            # the other way round
            return [(a, b)]
        return d

    def near_elem(self, x, y):
        return x.op == y.op == 'elem' and x.args[0] is y.args[0]

    def d_did(self, a, b, depth):
        if a.args[0] != b.args[0]:
            return None
        return self.all([self.diff(a.args[2], b.args[2], depth), self.guards(a.args[1].n, b.args[1].n, depth)])

    def d_exists(self, a, b, depth):
        x, y = a.args[0], b.args[0]
        d = self.diff(x.args[0], y.args[0], depth)
        if d is None:
            return None
        n = b.args[1].n
        if x is not y:
            n = self.alg.subst_n(n, {y: x})
        return self.all([d, self.guards(a.args[1].n, n, depth)])

    d_first = d_exists

    def d_mu(self, a, b, depth):
        if len(a.args) < 4 or len(b.args) < 4 or a.args[1] != b.args[1] or len(a.args[2]) != len(b.args[2]):
            return None
        d = self.diff(a.args[0], b.args[0], depth)
        if d is None:
            return None
        steps = b.args[3]
        if a.args[0] is not b.args[0]:
            steps = tuple(self.alg.subst(s, {b.args[0]: a.args[0]}) for s in steps)
        first, step = self.diff(a.args[2], b.args[2], depth), self.diff(a.args[3], steps, depth)
        if first and step:
            # counted in another way
            return None
        return self.all([d, first, step])

    def d_closure(self, a, b, depth):
        x, y = (self.alg.closure_lams.get(t) for t in (a, b))
        if x is None or y is None:
            return None
        return self.diff(x, y, depth)

    def d_lam(self, a, b, depth):
        d = self.plain(a, b, depth)
        if d is None:
            for x, y in ((a.args[-1], b.args[-1]), (b.args[-1], a.args[-1])):
                if x.op == 'seq' and x.args[0] == 'tuple' and x.args[1] and y.op != 'seq' and not x.args[1][0].binders:
                    # by something else first
                    return self.diff(x.args[1][0].term, y, depth) or None
        return d

    # -- conditions

    def guards(self, m, n, depth=0):
        if m == n:
            return []
        alg = self.alg
        if depth > DEPTH:
            return None
        key = ('g', m, n)
        if key in self.cache:
            return self.cache[key]
        self.cache[key] = None
        lm, ln, places = self.lifted(m, n, depth)
        if (lm, ln) != (m, n):
            res = self.cache[key] = self.all([self.guards(lm, ln, depth + 1), places]) if lm != ln else places or [('quantifier',)]
            return res
        sm, sn = alg.bdd.support(m), alg.bdd.support(n)
        if sm - sn and sn - sm:
            lm, ln = self.needed(m, sm - sn), self.needed(n, sn - sm)
            if (lm, ln) != (m, n):
                res = self.cache[key] = self.guards(lm, ln, depth + 1)
                return res
        mine = [alg.atoms[v] for v in sm - sn]
        their = [alg.atoms[v] for v in sn - sm]
        if not mine and not their:
            res = [('logic',)]
        elif not mine or not their:
            res = [('only', frozenset(mine or their))] if not self.unlikely(m, n, mine or their) else None
        elif len(mine) > 12 and len({(x.op, x.args[0]) for x in mine}) > 1:
            res = None
        else:
            res = self.matched(mine, their, depth + 1)
            if res is not None and len(res) > LIMIT * min(len(mine), 4):
                res = None
            if res is None:
                res = self.aside(m, n, mine, their) or self.aside(n, m, their, mine)
        self.cache[key] = res
        return res

    def unlikely(self, m, n, only):
        """differ only when a part of the result of a call is None, which may well never be"""
        alg = self.alg
        for x in only:
            if x.op == 'isnone' and x.args[0].op == 'index' and x.args[0].args[0].op in ('call', 'meth'):
                v = alg.atom_vars[x]
                k, l = alg.bdd.restrict(m, v, False), alg.bdd.restrict(n, v, False)
                if k == l or self.cmp.sat(alg.bdd.ite(k, alg.NOT(l), l)) == 0:
                    return True
        return False

    def aside(self, m, n, mine, their):
        """settings that only one of the conditions depends on, can't be what stands in another one instead"""
        alg = self.alg
        if len(mine) > 2 or len(their) > 4 or not all(self.setting(x) for x in mine):
            return None
        cases = [m]
        for x in mine:
            cases = [alg.bdd.restrict(k, alg.atom_vars[x], value) for k in cases for value in (True, False)]
        known = [alg.bdd.var(alg.atom_vars[x]) for x in mine]
        for i, k in enumerate(cases):
            values = [alg.NOT(v) if i >> (len(known) - 1 - j) & 1 else v for j, v in enumerate(known)]
            if self.cmp.sat(alg.AND(alg.bdd.ite(k, alg.NOT(n), n), *values)) != 0 and not self.unlikely(k, n, their):
                return [('only', frozenset(their))]
        return None

    def setting(self, x):
        t = x.args[0] if x.op in ('truthy', 'nonempty', 'isnone') else None
        while t is not None and t.op == 'attr' and t.args[1] in self.alg.prog.reference_attrs:
            t = t.args[0]
            if t.op == 'sym':
                return True
        return False

    def matched(self, mine, their, depth):
        pairs = [(x, self.nearest_atom(x, their, depth)) for x in mine]
        without = frozenset(x for x, d in pairs if d is None)
        if not without:
            return self.all([d for _, d in pairs])
        sources = {x.args[0].args[0] for x in [*mine, *their] if x.op == 'exists'}
        if len(without) > 2 or not all(self.plain_atom(x) or x.args[0] in sources for x in without):
            return None
        # conditions added, nothing else is left for them to be instead of
        back = [self.nearest_atom(y, [x for x in mine if x not in without], depth) for y in their]
        if any(d is None for d in back):
            return None
        return self.all([d for _, d in pairs if d is not None] + [[('only', without)]])

    def plain_atom(self, x):
        return x.op in ('truthy', 'nonempty', 'isnone', 'eq', 'in') and all(self.simple(t) for t in x.args if isinstance(t, Term))

    def needed(self, n, only):
        """without conditions that mean nothing there"""
        alg = self.alg
        for v in sorted(only):
            if alg.atoms[v].op not in ('truthy', 'nonempty', 'isnone'):
                continue
            for value in (True, False):
                k = alg.bdd.restrict(n, v, value)
                if k not in (0, 1) and self.cmp.sat(alg.bdd.ite(n, alg.NOT(k), k)) == 0:
                    n = k
                    break
        return n

    def lifted(self, m, n, depth):
        """
        Conditions on elements of the same collection, with what doesn't depend on the element, under one quantifier:
        how they are distributed among quantifiers means nothing
        """
        alg = self.alg
        found = [{alg.atoms[v] for v in alg.bdd.support(k) if alg.atoms[v].op == 'exists'} for k in (m, n)]
        if found[0] == found[1]:
            return m, n, []
        for k, others in ((m, found[1] - found[0]), (n, found[0] - found[1])):
            for s in {x.args[0].args[0] for x in others}:
                if (self.simple(s) or s.op == 'ext' and s.args[0] == 'range') and len(alg.bdd.support(k)) < 40 and self.particular(k, s) != k:
                    by = {x.args[0].args[0]: (x.args[0].args[0], None) for x in found[0] | found[1]}
                    return *(self.particular(self.lift(k, by, {s}), s) for k in (m, n)), []
        sources = [{x.args[0].args[0] for x in f} for f in found]
        ranges = [r for r in sources[0] | sources[1] if r.op == 'ext' and r.args[0] == 'range' and len(r.args[1]) <= 2]
        by = {s: self.numbered(s, ranges) for s in sources[0] | sources[1]}
        total = [{by[s][0] for s in f} for f in sources]
        both = total[0] & total[1]
        places = []
        if not both and len(total[0]) == len(total[1]) == 1:
            # over collections that differ
            (x,), (y,) = total
            places = self.diff(x, y, depth)
            if not places:
                return m, n, []
            by = {s: (y, z[1]) for s, z in by.items()}
            both = {y}
        elif not both or all(sum(by[x.args[0].args[0]][0] is s for x in f) < 2 for f in found for s in both) and \
                sources[0] & sources[1]:
            return m, n, []
        return *(self.lift(k, by, both) for k in (m, n)), places

    def particular(self, n, s):
        """conditions on one element, or on having common elements, as ones on an element"""
        alg = self.alg
        y = alg.elem(s, 90)
        by = {alg.index(s, alg.const(i)): y for i in (0, -1)}
        by.update((t, y) for t in self.cmp.subterms([alg.atoms[v] for v in alg.bdd.support(n)])
                  if t.op == 'first' and t.args[0].args[0] is s)
        cache = {}

        def walk(n):
            if n < 2:
                return n
            if n not in cache:
                var, lo, hi = alg.bdd.nodes[n]
                a = alg.atoms[var]
                c = alg.bdd.var(var)
                if a.op == 'overlap' and s in a.args:
                    c = alg.contains(y, a.args[1] if a.args[0] is s else a.args[0])
                elif a.op not in ('truthy', 'nonempty') or a.args[0].op in ('call', 'meth'):
                    c = alg.subst_n(c, by)
                cache[n] = alg.bdd.ite(c, walk(hi), walk(lo))
            return cache[n]
        return walk(n)

    def numbered(self, s, ranges):
        """collection and what an element of it is: elements of a list taken by number"""
        alg = self.alg
        whole, lo, hi = s, 0, 0
        if s.op == 'slice':
            whole, *ends = s.args
            if ends[2] is not alg.none or any(e is not alg.none and e.op != 'const' for e in ends[:2]):
                return s, None
            lo, hi = (0 if e is alg.none else e.args[1] for e in ends[:2])
            if lo < 0 or hi > 0:
                return s, None
        size = alg.linadd(alg.ext('len', [whole], ()), alg.const(hi - lo))
        for r in ranges:
            first, last = (alg.const(0), *r.args[1])[-2:]
            if alg.linadd(last, first, -1) is size:
                return r, (whole, alg.linadd(alg.const(lo), first, -1))
        return s, None

    def lift(self, n, by, sources):
        alg = self.alg
        cache = {}

        def walk(n):
            if n < 2:
                return n
            if n not in cache:
                var, lo, hi = alg.bdd.nodes[n]
                a = alg.atoms[var]
                c = alg.bdd.var(var)
                if a.op == 'exists' and by[a.args[0].args[0]][0] in sources:
                    x = a.args[0]
                    src, taken = by[x.args[0]]
                    y = alg.elem(src, 90)
                    c = alg.subst_n(a.args[1].n, {x: y if taken is None else alg.index(taken[0], alg.linadd(y, taken[1]))})
                cache[n] = alg.bdd.ite(c, walk(hi), walk(lo))
            return cache[n]
        return walk(n)

    def nearest_atom(self, x, others, depth):
        best = None
        for o in others:
            d = self.atoms(x, o, depth)
            if d is not None and (best is None or len(d) < len(best)):
                best = d
                if len(best) == 1:
                    break
        return best

    def one_of(self, x, y):
        """character anywhere in the text, and at particular place of it"""
        return x.op == 'in' and y.op == 'eq' and x.args[0] in y.args and \
            any(t.op in ('index', 'slice') and t.args[0] is x.args[1] for t in y.args)

    def telling(self, x):
        """something is asked about the element besides that it's there"""
        y = x.args[0]
        atoms = [self.alg.atoms[v] for v in self.alg.bdd.support(x.args[1].n)]
        return any(y in a.fv and not (a.op in ('truthy', 'nonempty', 'isnone') and a.args[0] is y) for a in atoms)

    def asked(self, x):
        """call that the condition is about: its result, or anything in it"""
        t = x.args[0] if x.op == 'truthy' else x.args[0].args[0] if x.op == 'exists' else None
        return t if t is not None and t.op == 'call' else None

    def atoms(self, x, y, depth):
        if x.op != y.op:
            if self.one_of(x, y) or self.one_of(y, x):
                return [(x, y)]
            f, g = self.asked(x), self.asked(y)
            if f is not None and g is not None and f.args[0] is not g.args[0] and f.args[0].cls and g.args[0].cls and \
                    {f.args[0].qual, g.args[0].qual} <= self.cmp.anchors:
                # another question to the same object
                x, y = dict(f.args[1]), dict(g.args[1])
                if f.args[0].cls is not g.args[0].cls:
                    # to another object
                    of = [{v for k, v in z.items() if k != 'self' and v.op != 'const'} for z in (x, y)]
                    return [(f.args[0], g.args[0])] if of[0] & of[1] else None
                d = self.all([self.diff(x[k], y[k], depth) for k in x if k in y])
                return None if d is None else d + [(f.args[0], g.args[0])]
            for p, q in ((x, y), (y, x)):
                if p.op in ('le', 'eq0') and q.op in ('truthy', 'nonempty'):
                    c, m = self.alg.aslin(p.args[0])
                    (t, k), = m.items() if len(m) == 1 else [(None, 0)]
                    if t is not None and t.op == 'ext' and t.args[0] == 'len' and c and abs(k) == 1:
                        # there is something in it, and there are several things
                        d = self.diff(t.args[1][0], q.args[0], depth)
                        return None if d is None else d + [('length', c)]
            if {x.op, y.op} in ({'in', 'overlap'}, {'in', 'eq'}) and set(x.args) == set(y.args):
                # the value, and parts of it
                return [(x, y)]
            for p, q in ((x, y), (y, x)):
                if p.op == 'eq' and q.op == 'truthy' and q.args[0].op == 'meth' and q.args[0].args[1] in ('startswith', 'endswith'):
                    t, name, args, kw = q.args[0].args
                    if set(p.args) == {t, *args} and t.op not in ('elem', 'index'):
                        # the whole, and a part of it
                        return [(x, y)]
                    if t in p.args and all(u.op == 'const' for u in (*args, *p.args) if u is not t) and t.op in ('sym', 'attr'):
                        # one of the texts that begin so
                        return [(x, y)]
                if p.op == 'in' and q.op == 'truthy' and q.args[0].op == 'meth' and q.args[0].args[1] in ('startswith', 'endswith') and \
                        p.args[1] is q.args[0].args[0] and (p.args[0].op == 'const' and self.alg.isstr(p.args[0]) or
                                                            q.args[0].args[2] == (p.args[0],)):
                    # anywhere, and there only
                    return [(x, y)]
                if p.op in ('truthy', 'nonempty') and q.op == 'exists' and q.args[0].args[0] is p.args[0] and self.telling(q):
                    # anything there, and something particular
                    return [(x, y)]
                if p.op == 'isnone' and q.op == 'truthy' and p.args[0] is q.args[0] and p.args[0].op == 'call' and \
                        p.args[0].args[0].qual in self.cmp.anchors and self.alg.typeof(p.args[0]) in (None, ('ext', 'typing.Any')):
                    # values there are and that are false
                    return [(x, y)]
            if {x.op, y.op} == {'ltf', 'lef'}:
                # strictly or not
                d = self.diff(x.args[0], y.args[0], depth)
                return None if d is None else d + [(x.op, y.op)]
            if {x.op, y.op} in ({'le', 'eq0'}, {'le', 'truthy'}):
                # of the same numbers
                (_, m), (_, k) = self.alg.aslin(x.args[0]), self.alg.aslin(y.args[0])
                neg = {t: -c for t, c in k.items()}
                if any(t.op in ('hole', 'mu', 'phi', 'find') for t in m):
                    # number that a loop counts: it may come to the very limit
                    return None
                return [(x, y)] if m == k or m == neg else None
            return None
        return self.diff(x, y, depth)

"""
Stages of a long generator: what may follow what.

Statements of the function are followed to a fixed point, each analysis with its own finite state:

* Stops: after something that ends the search nothing else is given. State: what has ended it, and the values of local
  flags that are only given constants (so that leaving by means of a flag is seen).
* Kept: names whose values of an earlier pass of a loop may be seen in a later one (reaching definitions).
* last_only: a flag that should remember any of the passes, and remembers the last one.
* reset: a set of things already given that is emptied while it is in use.
"""

import ast


class NotDecided(Exception):
    pass


FUNCTIONS = (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)


def own(node):
    """nodes of the function itself"""
    for x in ast.iter_child_nodes(node):
        if isinstance(x, FUNCTIONS):
            continue
        yield x
        yield from own(x)


def names(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


def yields(e):
    return [x for x in [e, *own(e)] if isinstance(x, (ast.Yield, ast.YieldFrom))]


class Flow:
    """states are frozensets; the empty one is of what can't be reached"""

    def block(self, stmts, st):
        brk = cont = frozenset()
        for s in stmts:
            if not st:
                break
            st, b, c = self.statement(s, st)
            brk, cont = brk | b, cont | c
        return st, brk, cont

    def statement(self, s, st):
        none = frozenset()
        if isinstance(s, ast.If):
            st = self.simple(s.test, st)
            r1, b1, c1 = self.block(s.body, self.test(s.test, True, st))
            r2, b2, c2 = self.block(s.orelse, self.test(s.test, False, st))
            return r1 | r2, b1 | b2, c1 | c2
        if isinstance(s, (ast.For, ast.While)):
            return self.loop(s, st)
        if isinstance(s, ast.With):
            for i in s.items:
                st = self.simple(i.context_expr, st)
            return self.block(s.body, st)
        if isinstance(s, (ast.Return, ast.Raise)):
            if getattr(s, 'value', None) is not None:
                self.simple(s, st)
            return none, none, none
        if isinstance(s, ast.Break):
            return none, st, none
        if isinstance(s, ast.Continue):
            return none, none, st
        if isinstance(s, FUNCTIONS):
            return st, none, none
        if isinstance(s, (ast.Expr, ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Pass, ast.Assert, ast.Nonlocal, ast.Global,
                          ast.Import, ast.ImportFrom, ast.Delete)):
            return self.simple(s, st), none, none
        raise NotDecided

    def loop(self, s, st):
        none = frozenset()
        if isinstance(s, ast.For):
            st = self.simple(s.iter, st)
        start, out = st, none
        while True:
            if isinstance(s, ast.While):
                cur = self.simple(s.test, start)
                on, off = self.test(s.test, True, cur), self.test(s.test, False, cur)
            else:
                on, off = self.bind(s, start), start
            after, brk, cont = self.block(s.body, on)
            new = start | after | cont
            out = brk
            if new == start:
                break
            start = new
        els, b, c = self.block(s.orelse, off) if s.orelse else (off, none, none)
        return out | els, b, c

    def test(self, e, val, st):
        return st

    def bind(self, s, st):
        return st

    def simple(self, s, st):
        return st


class Stops(Flow):
    """state: {(ended: None | (what, name) | (what, None), flags)}"""

    def __init__(self, func, kinds, given):
        self.kinds, self.given = set(kinds), set(given)
        self.bad = {}
        self.seen = 0
        consts = {}
        for x in own(func):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            ok = isinstance(t, ast.Name) and isinstance(x.value, ast.Constant)
                            consts.setdefault(n.id, []).append(ok)
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.For, ast.comprehension, ast.NamedExpr)):
                for n in ast.walk(x.target):
                    if isinstance(n, ast.Name):
                        consts.setdefault(n.id, []).append(
                            isinstance(x, ast.AnnAssign) and isinstance(x.value, ast.Constant))
        self.flags = {n for n, oks in consts.items() if all(oks)}

    def ending(self, e):
        """(kind, name) if the test is about the kind that ends the search"""
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], ast.Eq):
            for a, b in ((e.left, e.comparators[0]), (e.comparators[0], e.left)):
                if isinstance(b, ast.Constant) and b.value in self.kinds and isinstance(a, ast.Attribute) and \
                        isinstance(a.value, ast.Name):
                    return b.value, a.value.id
        return None

    def test(self, e, val, st):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.test(e.operand, not val, st)
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And) == val:
                for x in e.values:
                    st = self.test(x, val, st)
                return st
            res = frozenset()
            for x in e.values:
                res |= self.test(x, val, st)
                st = self.test(x, not val, st)
            return res
        if isinstance(e, ast.Name) and e.id in self.flags:
            return frozenset((f, fl) for f, fl in st if dict(fl).get(e.id, val) == val)
        if val:
            end = self.ending(e)
            if end is not None:
                self.seen += 1
                return frozenset((f or end, fl) for f, fl in st)
        return st

    def bind(self, s, st):
        bound = names(s.target)
        return frozenset(((f[0], None) if f and f[1] in bound else f, fl) for f, fl in st)

    def simple(self, s, st):
        for y in yields(s):
            ended = None
            for f, _ in st:
                if f and not (isinstance(y, ast.Yield) and isinstance(y.value, ast.Name) and y.value.id == f[1]):
                    self.bad.setdefault(y, f[0])
            for x in ast.walk(y):
                if isinstance(x, ast.Constant) and x.value in self.given and not isinstance(y.value, ast.Name):
                    ended = x.value, None
                    self.seen += 1
            if ended:
                st = frozenset((f or ended, fl) for f, fl in st)
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                if isinstance(t, ast.Name) and t.id in self.flags:
                    v = bool(s.value.value)
                    st = frozenset((f, frozenset({**dict(fl), t.id: v}.items())) for f, fl in st)
        return st


def stops(func, kinds, given=()):
    """
    kinds: those that end the search when something turns out to be of the kind; given: those that do when they are given
    -> (places that end the search, [(yield, kind)]); None if it is not decided
    """
    a = Stops(func, kinds, given)
    try:
        a.block(func.body, frozenset([(None, frozenset())]))
    except NotDecided:
        return None
    return a.seen, list(a.bad.items())


class Kept(Flow):
    """state: {(name, assignment)} that reach"""

    def __init__(self, interesting):
        self.interesting = interesting
        self.at = {}

    def note(self, e, st):
        for n in names(e) & self.interesting:
            self.at.setdefault(e, set()).update(x for x in st if x is not True and x[0] == n)

    def simple(self, s, st):
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                for n in names(t) & self.interesting:
                    st = frozenset(x for x in st if x is True or x[0] != n) | {(n, s)}
        return st

    def test(self, e, val, st):
        self.note(e, st)
        return st

    def bind(self, s, st):
        for n in names(s.target) & self.interesting:
            st = frozenset(x for x in st if x is True or x[0] != n)
        return st


def kept(func, call_test):
    """
    flags that decide about a stage of a loop's pass and come from an earlier pass.
    call_test: is it the call of the stage
    -> (flags looked at, [(test, name)])
    """
    seen, bad = 0, []
    for loop in own(func):
        if not isinstance(loop, ast.For):
            continue
        tests = [x for s in loop.body for x in [s, *own(s)] if isinstance(x, ast.If) and
                 any(isinstance(y, ast.Call) and call_test(y) for b in x.body for y in [b, *own(b)])]
        inner = [x for x in own(loop) if isinstance(x, (ast.For, ast.While))]
        for t in tests:
            if any(t in list(own(i)) for i in inner):
                continue
            local = {n.id for x in own(loop) if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign))
                     for tt in (x.targets if isinstance(x, ast.Assign) else [x.target]) for n in ast.walk(tt)
                     if isinstance(n, ast.Name)}
            flags = names(t.test) & local
            if not flags:
                continue
            seen += len(flags)
            # what is assigned later than the test, or under conditions, must not get round the loop
            one = Kept(flags)
            try:
                once, _, cont = one.block(loop.body, frozenset([True]))
                left = once | cont
                again = Kept(flags)
                again.block(loop.body, left | {True})
            except NotDecided:
                continue
            first = one.at.get(t.test, set())
            for n, s in sorted(again.at.get(t.test, set()) - first, key=lambda p: p[0]):
                bad.append((t.test, n))
            if not first:
                continue
            # assignment that reaches the test within the pass, and also from the pass before
            through = Kept(flags)
            through.block(loop.body, frozenset([True, *((n, 'before') for n in flags)]))
            for n, s in through.at.get(t.test, set()):
                if s == 'before' and any(x[0] == n for x in left if x is not True) and (t.test, n) not in bad:
                    bad.append((t.test, n))
    return seen, bad


def last_only(func, about):
    """
    flags that are given the answer about the current element of a loop, and asked after the loop.
    about: is the expression the question
    -> (flags looked at, [(assignment, name)])
    """
    seen, bad = 0, []
    nodes = list(own(func))
    for loop in nodes:
        if not isinstance(loop, ast.For):
            continue
        inside = list(own(loop))
        for x in inside:
            if not isinstance(x, ast.Assign) or len(x.targets) != 1 or not isinstance(x.targets[0], ast.Name) or \
                    not about(x.value):
                continue
            name = x.targets[0].id
            seen += 1
            after = [y for y in nodes if isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Load) and y not in inside]
            within = [y for y in inside if isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Load)]
            # the statement is done in every pass, and nothing in the loop looks at the flag
            if after and not within and name not in names(x.value) and x in loop.body and x not in [b for b, _ in bad]:
                bad.append((x, name))
    for loop in nodes:
        if not isinstance(loop, ast.For):
            continue
        inside = list(own(loop))
        made = [x for x in inside if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)]
        for x in made:
            name = x.targets[0].id
            if x not in loop.body or not isinstance(x.value, ast.Constant) or x.value.value:
                continue
            # forgotten at each pass
            mine = [y for y in made if y.targets[0].id == name and y is not x]
            asked = [y for y in inside if isinstance(y, ast.If) and about(y.test) and any(z in list(own(y)) for z in mine)]
            if not asked and not any(about(y.value) for y in mine):
                continue
            reads = lambda ns: {y for y in ns if isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Load)}
            if reads(inside) == reads(z for y in mine for z in own(y)) and reads(nodes) - reads(inside) and \
                    x not in [b for b, _ in bad]:
                bad.append((x, name))
    return seen, bad


def reset(func):
    """
    sets that decide what was already given, emptied while in use.
    -> (sets looked at, [(statement, name)])
    """
    tested, added = set(), set()
    for x in ast.walk(func):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.In, ast.NotIn)) and \
                isinstance(x.comparators[0], ast.Name):
            tested.add(x.comparators[0].id)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('add', 'append') and \
                isinstance(x.func.value, ast.Name):
            added.add(x.func.value.id)
    bad = []
    nodes = list(own(func))
    empty = lambda e: isinstance(e, (ast.List, ast.Set, ast.Dict)) and not getattr(e, 'elts', getattr(e, 'keys', None)) or \
        isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('set', 'list', 'dict') and not e.args
    mine = set()
    for n in tested & added:
        made = [x for x in nodes if isinstance(x, (ast.Assign, ast.AnnAssign)) and
                any(isinstance(t, ast.Name) and t.id == n for t in (x.targets if isinstance(x, ast.Assign) else [x.target]))]
        if not made or not all(x.value is not None and empty(x.value) for x in made):
            continue
        mine.add(n)
        first = made[0]
        loops = [x for x in nodes if isinstance(x, (ast.For, ast.While))]
        for x in made[1:]:
            if any(x in list(own(l)) and first not in list(own(l)) for l in loops):
                bad.append((x, n))
        for x in ast.walk(func):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('clear', 'pop', 'remove', 'discard') and \
                    isinstance(x.func.value, ast.Name) and x.func.value.id == n:
                bad.append((x, n))
    return len(mine), bad


EXAMPLE = '''
def f(xs, ys, seen):
    given = set()
    found = False
    skip = False
    for x in xs:
        given = set()
        for y in ys:
            if y in given:
                continue
            given.add(y)
            yield y
            found = y.kind in GOOD
            if y.kind == 'whole':
                skip = True
                break
        if not skip:
            more(compounds=True)
    if found:
        return
    yield 1
'''


def self_check():
    f = ast.parse(EXAMPLE).body[0]
    got = [len(stops(f, ['whole'])[1]),
           len(kept(f, lambda c: isinstance(c.func, ast.Name) and c.func.id == 'more')[1]),
           len(last_only(f, lambda e: isinstance(e, ast.Compare))[1]), len(reset(f)[1])]
    if got != [2, 1, 1, 1]:
        raise AssertionError(f'example of stages is not understood: {got}')
    return len(got)

"""
Counters of what a generator has given.

A local counter that starts with 0, only grows by one and is compared with a limit is followed together with the number of
values given: `behind` is how many more values were given than counted, `over` bounds the counter from above (counter is at
most limit + over). Values given are at most limit + behind + over; leaving because the limit is reached must not happen
before limit values are given. The state is propagated over the statements to a fixed point; loops inside of the counting
loop are taken as going around at most once, or any number of times: an objection must hold for both.
"""

import ast

INF = float('inf')
TOP = None


class NotDecided(Exception):
    pass


class State:
    __slots__ = ('behind', 'over')

    def __init__(self, behind, over):
        self.behind = behind
        self.over = over

    def __eq__(self, other):
        return isinstance(other, State) and (self.behind, self.over) == (other.behind, other.over)


def join(a, b):
    if a is None or b is None:
        return a or b
    return State(a.behind if a.behind == b.behind else TOP, max(a.over, b.over))


def widen(old, new):
    if old is not None and new is not None and new.over > old.over:
        return State(new.behind, INF if new.over > 3 else new.over)
    return new


class Counting:
    def __init__(self, counter, limit, once):
        self.counter = counter
        self.limit = limit
        self.once = once
        self.bad = {}
        self.depth = 0

    # -- tests

    def offset(self, e):
        """counter + number -> number; None if it is something else"""
        if isinstance(e, ast.Name) and e.id == self.counter:
            return 0
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)) and isinstance(e.right, ast.Constant) and \
                isinstance(e.right.value, int):
            base = self.offset(e.left)
            return None if base is None else base + (e.right.value if isinstance(e.op, ast.Add) else -e.right.value)
        return None

    def mentions(self, e):
        return any(isinstance(x, ast.Name) and x.id == self.counter for x in ast.walk(e))

    def test(self, e, st):
        """-> (state if true, state if false, how much over the limit the counter is at least if true, if false)"""
        if not self.mentions(e):
            return st, st, None, None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            a, b, x, y = self.test(e.operand, st)
            return b, a, y, x
        if not isinstance(e, ast.Compare) or len(e.ops) != 1:
            raise NotDecided
        left, op, right = e.left, e.ops[0], e.comparators[0]
        swap = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        kind = type(op)
        if self.mentions(right):
            left, right, kind = right, left, swap.get(kind)
        off = self.offset(left)
        if off is None or kind not in swap or ast.dump(right) != self.limit:
            raise NotDecided
        least = lambda n: State(st.behind, min(st.over, n))
        if kind in (ast.Lt, ast.LtE):
            # counter + off < limit
            n = -off - (kind is ast.Lt)
            return least(n), st, None, n + 1
        if kind in (ast.Gt, ast.GtE):
            n = -off + (kind is ast.Gt)
            return st, least(n - 1), n, None
        if st.over > -off:
            raise NotDecided
        eq, ne = least(-off), least(-off - 1)
        return (eq, ne, -off, None) if kind is ast.Eq else (ne, eq, None, -off)

    # -- statements

    def block(self, stmts, st):
        """-> states: after, of breaks, of continues"""
        brk = cont = None
        for s in stmts:
            if st is None:
                break
            st, b, c = self.statement(s, st)
            brk, cont = join(brk, b), join(cont, c)
        return st, brk, cont

    def leave(self, stmts, st, least):
        """limit is reached: not before so many values are given"""
        if least is None or st is None or st.behind is TOP or not stmts:
            return
        last = stmts[0]
        if isinstance(last, ast.Return) or isinstance(last, ast.Break) and self.depth == 1:
            if st.behind + least < 0:
                self.bad.setdefault(last, f'left after limit{st.behind + least:+d} values are given')

    def statement(self, s, st):
        if isinstance(s, ast.If):
            self.expr(s.test)
            a, b, x, y = self.test(s.test, st)
            self.leave(s.body, a, x)
            self.leave(s.orelse, b, y)
            r1, b1, c1 = self.block(s.body, a)
            r2, b2, c2 = self.block(s.orelse, b)
            return join(r1, r2), join(b1, b2), join(c1, c2)
        if isinstance(s, (ast.For, ast.While)):
            return self.loop(s, st), None, None
        if isinstance(s, (ast.Return, ast.Raise)):
            if isinstance(s, ast.Return) and s.value is not None:
                self.expr(s.value)
            return None, None, None
        if isinstance(s, ast.Break):
            return None, st, None
        if isinstance(s, ast.Continue):
            return None, None, st
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == self.counter:
            if maybe_one(s.value):
                return join(st, State(TOP if st.behind is TOP else st.behind - 1, st.over + 1)), None, None
            return State(TOP if st.behind is TOP else st.behind - 1, st.over + 1), None, None
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            if any(isinstance(t, ast.Name) and t.id == self.counter for t in targets):
                if isinstance(s.value, ast.Constant):
                    return State(TOP, -1), None, None
                return State(TOP if st.behind is TOP else st.behind - 1, st.over + 1), None, None
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield):
            if s.value.value is not None:
                self.expr(s.value.value)
            if st.behind is TOP:
                self.bad.setdefault(s, 'values given before are not all counted')
                return st, None, None
            st = State(st.behind + 1, st.over)
            if st.behind + st.over > 0:
                n = st.behind + st.over
                self.bad.setdefault(s, 'given without looking at the limit' if n == INF else f'gives up to limit{n:+d} values')
            return st, None, None
        if isinstance(s, (ast.Expr, ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Pass, ast.Assert)):
            for e in ast.iter_child_nodes(s):
                self.expr(e)
            return st, None, None
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            if any(isinstance(x, ast.Name) and x.id == self.counter for x in ast.walk(s)):
                raise NotDecided
            return st, None, None
        raise NotDecided

    def expr(self, e):
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Await)) for x in ast.walk(e)):
            raise NotDecided

    def loop(self, s, st):
        self.expr(s.iter if isinstance(s, ast.For) else s.test)
        if s.orelse:
            raise NotDecided
        self.depth += 1
        few = self.once and self.depth > 1 and isinstance(s, ast.For)
        start, out = st, None
        for _ in range(12):
            if isinstance(s, ast.While):
                on, off, _, _ = self.test(s.test, start)
            else:
                on = off = start
            after, brk, cont = self.block(s.body, on)
            out = join(off, brk)
            again = join(after, cont)
            if few:
                out = join(out, again)
                break
            new = widen(start, join(start, again))
            if new == start:
                break
            start = new
        self.depth -= 1
        return out


def own(node):
    """statements of the function itself"""
    for x in ast.iter_child_nodes(node):
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        yield x
        yield from own(x)


def counters(node):
    """(counter, limit, loop) of the function"""
    changes = {}
    for x in own(node):
        if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        changes.setdefault(n.id, []).append(x)
        elif isinstance(x, (ast.For, ast.comprehension, ast.NamedExpr)):
            for n in ast.walk(x.target):
                if isinstance(n, ast.Name):
                    changes.setdefault(n.id, []).append(None)
    for name, xs in changes.items():
        up = [x for x in xs if x is not None and grows(x, name)]
        zero = [x for x in xs if isinstance(x, (ast.Assign, ast.AnnAssign)) and isinstance(x.value, ast.Constant) and x.value.value == 0 and
                (isinstance(x, ast.AnnAssign) or len(x.targets) == 1 and isinstance(x.targets[0], ast.Name))]
        if not up or not zero or len(up) + len(zero) != len(xs):
            continue
        loops = [x for x in own(node) if isinstance(x, (ast.For, ast.While)) and up[0] in list(own(x))]
        if not loops or not all(u in list(own(loops[0])) for u in up):
            continue
        for x in own(loops[0]):
            if isinstance(x, ast.Compare) and len(x.ops) == 1:
                sides = [x.left, x.comparators[0]]
                having = [e for e in sides if any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(e))]
                if len(having) == 1:
                    limit = sides[1 - sides.index(having[0])]
                    if any(isinstance(n, ast.Name) and n.id in changes for n in ast.walk(limit)):
                        continue
                    if any(isinstance(y, ast.Yield) for y in own(loops[0])):
                        yield name, limit, loops[0]
                        break


def maybe_one(e):
    """0 or 1"""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('int', 'bool') and len(e.args) == 1:
        return e.func.id == 'bool' or maybe_one(e.args[0])
    if isinstance(e, ast.IfExp):
        return {getattr(x, 'value', None) for x in (e.body, e.orelse)} == {0, 1}
    return isinstance(e, ast.Compare) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not)


def grows(x, name):
    if isinstance(x, ast.AugAssign):
        return isinstance(x.op, ast.Add) and (isinstance(x.value, ast.Constant) and x.value.value == 1 or maybe_one(x.value))
    v = x.value
    return isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and \
        isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and isinstance(v.left, ast.Name) and v.left.id == name and \
        isinstance(v.right, ast.Constant) and v.right.value == 1


def examine(node):
    """-> list of (counter, limit, objections: list of (statement, text)); None for objections if it is not decided"""
    res = []
    for name, limit, loop in counters(node):
        found = []
        try:
            for once in (True, False):
                a = Counting(name, ast.dump(limit), once)
                a.loop(loop, State(0, -1))
                found.append(a.bad)
            bad = [(s, text) for s, text in found[0].items() if s in found[1]]
        except NotDecided:
            bad = None
        res.append((name, ast.unparse(limit), bad))
    return res


EXAMPLES = [
    ('for x in xs:\n  yield x\n  n += 1\n  if n > top:\n   return', True),
    ('for x in xs:\n  if n >= top:\n   return\n  yield x\n  if x:\n   n += 1', True),
    ('for x in xs:\n  if n >= top:\n   return\n  yield x\n  n += x > 1', True),
    ('for x in xs:\n  n += 1\n  if n >= top:\n   return\n  yield x', True),
    ('for x in xs:\n  yield x\n  n += 1\n  if n >= top:\n   return', False),
    ('for x in xs:\n  for y in f(x):\n   n = n + 1\n   yield y\n  if not n < top:\n   break', False),
]


def self_check():
    for text, wrong in EXAMPLES:
        f = ast.parse('def f(xs, top):\n n = 0\n ' + text.replace('\n', '\n ')).body[0]
        got = examine(f)
        if len(got) != 1 or got[0][2] is None or bool(got[0][2]) != wrong:
            raise AssertionError(f'example of counting is not understood: {text!r}')
    return len(EXAMPLES)

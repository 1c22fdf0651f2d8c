"""
Progress of loops and recursions.

Loop: some number, length or input that decides whether to go on must move towards its end on every way around. It is
endless if there is a way around on which nothing that decides it changes.

Recursion: the same for the parameters of the function, compared with arguments of the call inside of it.
"""

import ast

from .alg import show
from .bounds import Bounds, Facts, KEEP
from .compare import subterms

CONSUME = {'readline', '__next__', 'next', 'pop', 'popleft', 'popitem', 'read', 'get_nowait'}
# may give the same text
SAME = KEEP | {'strip', 'lstrip', 'rstrip', 'replace', 'removeprefix', 'removesuffix'}


class Finish(Bounds):
    """measures"""

    def __init__(self, run, tables=(), parts=(), **kw):
        super().__init__(run, **kw)
        self.tables = set(tables)           # functions that change text by tables (any way, or not at all)
        self.parts = set(parts)

    # -- facts about chosen elements: they satisfy the condition of choice

    def chosen(self, t):
        alg = self.alg
        if t.op == 'first':
            return t.args[0], t.args[1].n
        seq = None
        if t.op == 'ext' and t.args[0] in ('max', 'min') and len(t.args[1]) == 1:
            seq = self.plain(t.args[1][0])
        elif t.op == 'index' and t.args[1].op == 'const':
            seq = self.plain(t.args[0])
        if seq is not None and seq.op == 'seq' and len(seq.args[1]) == 1:
            i = seq.args[1][0]
            if i.kind == 'one' and len(i.binders) == 1 and i.term is i.binders[0]:
                return i.term, i.guard.n
        if seq is not None and seq.op == 'elem':
            return None
        return None

    def axioms(self, terms, facts, seen):
        alg = self.alg
        before = set(seen)
        super().axioms(terms, facts, seen)
        for t in list(seen - before):
            for x in subterms(alg, [t]):
                c = self.chosen(x)
                if c is None:
                    continue
                el, g = c
                for v, val in alg.bdd.forced(g).items():
                    a = alg.atoms[v]
                    if el in a.fv:
                        b = alg.subst(a, {el: x})
                        if b.op == 'bool':
                            n = b.args[0].n if hasattr(b.args[0], 'n') else b.args[0]
                            for v2, val2 in alg.bdd.forced(n if val else alg.NOT(n)).items():
                                self.literal(alg.atoms[v2], val2, facts)
                        else:
                            self.literal(b, val, facts)

    # -- pairs (value before, value after)

    def more(self, guard, before, after, least=1):
        """after >= before + least, in all cases"""
        a, b = self.alg.aslin(after), self.alg.aslin(before)
        terms = [*a[1], *b[1]]
        return self.decide(guard, lambda f, g: self.holds(least, [(1, a), (-1, b)], f), terms)[0]

    def less(self, guard, before, after):
        return self.more(guard, after, before)

    def shorter(self, guard, before, after):
        """len(after) < len(before)"""
        alg = self.alg
        t = self.plain(after)
        if t.op == 'slice' and t.args[0] is before and t.args[3] is alg.none:
            _, lo, hi, _ = t.args
            some = lambda f, g: self.at_least(before, 1, f, g)
            if not self.decide(guard, some, list(self.length(before)[1]))[0]:
                return False
            if lo is not alg.none and self.more(guard, alg.const(0), lo):
                return True
            if hi is not alg.none:
                if hi.op == 'const' and isinstance(hi.args[1], int) and hi.args[1] < 0:
                    return True
                h, l = alg.aslin(hi), self.length(before)
                return self.decide(guard, lambda f, g: self.holds(1, [(1, l), (-1, h)], f) and self.holds(0, [(1, h)], f),
                                   [*h[1], *l[1]])[0]
            return False
        a, b = self.length(after), self.length(before)
        return self.decide(guard, lambda f, g: self.holds(1, [(1, b), (-1, a)], f), [*a[1], *b[1]])[0]

    def bounded(self, guard, before, afters, moving, sign):
        """the number doesn't go over something that doesn't move (or under, for sign = -1)"""
        facts = self.facts(guard, [before])
        fixed = lambda m, t: not any(x in moving or x.fv & moving for x in m if x is not t)
        for c, m in facts.rows:
            if m.get(before, 0) * sign > 0 and fixed(m, before):
                return True
        for t in {t for _, m in facts.rows for t in m if t.op == 'ext' and t.args[0] == 'len'}:
            if sign > 0 and not (t in moving or t.fv & moving) and facts.entails(0, {before: 1, t: -1}):
                return True
        # each new value is bounded by itself
        def own(t):
            if t.op == 'meth' and t.args[1] in ('find', 'rfind', 'index', 'rindex') and sign > 0:
                return not (t.args[0] in moving or t.args[0].fv & moving)
            return False
        return all(own(t) for t in afters)

    # -- loops

    def loop(self, e):
        """(verdict, detail)"""
        alg, eng = self.alg, self.eng
        bdd = alg.bdd
        guard = self.comparer.sat(e.guard)
        if guard == 0:
            return 'ok', 'is not repeated'
        if len(e.term.args) < 4:
            cells = {}
        else:
            cells = {h: (p, n) for h, p, n in zip(*e.term.args[1:])}
        moving = set(cells)
        deciding = self.deciding(guard, cells)
        ways = {h: [(g, t) for g, t in eng.alts(cells[h][1]) if alg.AND(guard, g)] for h in deciding}
        # input is consumed
        for h in deciding:
            if all(self.consumes(t) for _, t in ways[h]) and ways[h]:
                if all(t.op == 'meth' and t.args[1] in ('readline', 'read') for _, t in ways[h]) and \
                        alg.AND(guard, alg.NOT(alg.nonempty(h))) != 0 and \
                        all(x is h or h not in x.fv for v in bdd.support(guard) for x in [alg.atoms[v]]
                            if x.op not in ('truthy', 'nonempty', 'isnone', 'eq')):
                    return 'bad', f'{name(h)} is empty at the end of the input, and the loop goes on'
                return 'ok', f'{name(h)} is read from the input'
        for h in deciding:
            after = ways[h]
            if not after:
                continue
            if all(self.number(t) for t in (h, *(t for _, t in after))):
                for sign, cmp in ((1, self.more), (-1, self.less)):
                    if all(self.moves(alg.AND(guard, g), h, t, cmp) for g, t in after) and \
                            self.bounded(guard, h, [t for _, t in after], moving, sign):
                        return 'ok', f'{name(h)} moves towards its bound'
            if self.sized(h) and all(self.shorter(alg.AND(guard, g), h, t) for g, t in after):
                return 'ok', f'{name(h)} becomes shorter'
        # difference of two
        for h in deciding:
            for h2 in deciding:
                if self.number(h2) and self.sized(h) and self.gap(guard, h, ways[h], h2, ways[h2]):
                    return 'ok', f'{name(h2)} moves towards the end of {name(h)}'
        still = guard
        how = []
        for h in deciding:
            same = 0
            for g, t in ways[h]:
                g = alg.AND(guard, g)
                s = self.stays(g, h, t, cells[h][0])
                if s:
                    same = alg.OR(same, s)
            if same == 0 and self.number(h) and all(self.more(alg.AND(guard, g), h, t) for g, t in ways[h]):
                # counter: it matters no more at some time
                still = self.later(still, h)
                continue
            still = alg.AND(still, same)
            if still == 0:
                return self.by_tables(guard, deciding, ways)
            how.append(name(h))
        still = self.comparer.sat(still)
        if still == 0:
            return self.by_tables(guard, deciding, ways)
        if self.facts(still, []).infeasible():
            return self.by_tables(guard, deciding, ways)
        for v in bdd.support(still):
            for x in subterms(alg, [alg.atoms[v]]):
                if x.op in ('mupost', 'opaque') or x.op == 'phi' and x.args[0] in ('last', 'post'):
                    return 'unknown', f'whether {show(x)[:100]} may stay'
                if x.op == 'meth' and x.args[1] in CONSUME:
                    return 'unknown', 'input is read'
        return 'bad', ('nothing that ends the loop changes' + (f' ({", ".join(how)} may stay the same)' if how else '') +
                       ' when ' + self.comparer.describe(still)[:300])

    def by_tables(self, guard, deciding, ways):
        """rewriting by any tables until nothing changes: may go around in a circle"""
        if deciding and all(ways[h] and all(self.rewritten(h, t) for _, t in ways[h]) for h in deciding):
            return 'bad', f'{", ".join(name(h) for h in deciding)} is rewritten by tables again and again, they may return it back'
        return 'unknown', 'no measure of progress is found'

    def later(self, guard, h):
        """part of the condition that holds for all large values"""
        alg = self.alg
        bdd = alg.bdd
        for v in sorted(bdd.support(guard)):
            a = alg.atoms[v]
            if a is h or h in a.fv or h in subterms(alg, [a]):
                if a.op == 'eq0' and all(x is h for x in alg.aslin(a.args[0])[1]):
                    # it may be passed by
                    guard = bdd.restrict(guard, v, False)
                elif a.op == 'exists' and any(x.op == 'elem' and x.args[0] is h for x in subterms(alg, [a])):
                    # about each of items: the added ones may be the same
                    continue
                elif a.op in ('truthy', 'nonempty') and a.args[0] is h:
                    guard = bdd.restrict(guard, v, True)
                else:
                    guard = alg.AND(bdd.restrict(guard, v, False), bdd.restrict(guard, v, True))
        return guard

    def rewritten(self, h, t):
        if t.op == 'meth' and t.args[1] in ('sub', 'replace') and h in subterms(self.alg, [t]):
            how = t.args[0] if t.args[1] == 'sub' else t.args[2][0] if t.args[2] else t.args[0]
            return how.op != 'const' and how is not h
        if t.op == 'call' and t.args[0].qual in self.tables:
            return any(h in x.fv or x is h for _, x in t.args[1])
        return False

    def moves(self, guard, h, t, cmp):
        # what matters is the next turn, if there is one
        return cmp(self.alg.AND(guard, self.alg.subst_n(guard, {h: t})), h, t)

    def deciding(self, guard, cells):
        alg = self.alg
        res = []
        for v in sorted(alg.bdd.support(guard)):
            for h in cells:
                if h in alg.atoms[v].fv or alg.atoms[v] is h:
                    if h not in res:
                        res.append(h)
        for h in res:
            for h2 in cells:
                if h2 in cells[h][1].fv and h2 not in res:
                    res.append(h2)
        return res

    def consumes(self, t):
        return any(x.op == 'meth' and x.args[1] in CONSUME or x.op == 'ext' and x.args[0] == 'next'
                   for x in subterms(self.alg, [t]))

    def number(self, t):
        alg = self.alg
        return alg.isnum(t) or t.op in ('lin',) or t.op == 'const' and isinstance(t.args[1], int) and \
            not isinstance(t.args[1], bool) or t.op == 'meth' and t.args[1] in ('find', 'rfind', 'index', 'count')

    def gap(self, guard, h, after, h2, after2):
        """len(h) - h2 becomes less, and there is something before the end"""
        alg = self.alg
        l, n = self.length(h), alg.aslin(h2)
        if not self.decide(guard, lambda f, g: self.holds(0, [(1, l), (-1, n)], f), [*l[1], *n[1]])[0]:
            return False
        for g, t in after:
            for g2, t2 in after2:
                both = alg.AND(guard, g, g2)
                if not both:
                    continue
                l2, n2 = self.length(t), alg.aslin(t2)
                if not self.decide(both, lambda f, g: self.holds(1, [(1, l), (-1, n), (-1, l2), (1, n2)], f),
                                   [*l[1], *n[1], *l2[1], *n2[1]])[0]:
                    return False
        return True

    def stays(self, guard, before, after, init=None):
        """condition under which the value surely stays, or may stay, the same; 0 if it is not known"""
        alg = self.alg
        if after is before:
            return guard
        if after.op == 'meth' and after.args[1] == 'find' and len(after.args[2]) == 2 and after.args[2][1] is before:
            # found where it was looked for
            if init is None or init.op == 'meth' and init.args[:2] == after.args[:2] and init.args[2][0] is after.args[2][0]:
                return guard
        if init is not None and after.op == init.op == 'meth' and after.args[1] == init.args[1] == 'search' and \
                after.args[0] is init.args[0] and len(after.args[2]) == 2 and after.args[2][0] is init.args[2][0]:
            x = after.args[2][1]
            if x.op == 'meth' and x.args[:2] == (before, 'start') and not x.args[2]:
                return guard
        if self.number(before) and self.number(after):
            ca, ma = alg.aslin(after)
            cb, mb = alg.aslin(before)
            d = self.minus(ma, mb)
            d = {t: k for t, k in d.items() if k}
            c = ca - cb
            if not d:
                return guard if c == 0 else 0
            # sum of lengths and of sizes of matches
            if c == 0 and all(k > 0 for k in d.values()) and all(self.may_be_zero(t, guard) for t in d):
                return guard
            if c == 0 and self.match_size(d):
                return guard
            return 0
        if self.may_be_same(after, before, guard):
            return guard
        return 0

    def match_size(self, d):
        """end - start of match: patterns may match nothing"""
        if len(d) != 2:
            return False
        (a, ka), (b, kb) = d.items()
        if ka + kb:
            return False
        hi, lo = (a, b) if ka > 0 else (b, a)
        if abs(ka) != 1:
            return False
        if hi.op == lo.op == 'index' and hi.args[0] is lo.args[0] and hi.args[0].op == 'meth' and hi.args[0].args[1] == 'span':
            return True
        return hi.op == lo.op == 'meth' and hi.args[0] is lo.args[0] and (hi.args[1], lo.args[1]) == ('end', 'start') and \
            hi.args[2] == lo.args[2]

    def may_be_zero(self, t, guard):
        alg = self.alg
        if t.op == 'ext' and t.args[0] == 'len':
            x = t.args[1][0]
            f = self.facts(guard, [t])
            if f.entails(1, {t: -1}):
                return False
            if self.free(x):
                return True
            # item of a row of table
            if x.op == 'index' and x.args[1].op == 'const':
                c = self.chosen(x.args[0])
                if c is not None:
                    el, g = c
                    item = alg.index(el, x.args[1])
                    said = [alg.atoms[v] for v in alg.bdd.support(g) if item in subterms(alg, [alg.atoms[v]])]
                    coll = self.plain(el.args[0])
                    return not said and coll.op == 'attr'
            return False
        return False

    def may_be_same(self, after, before, guard):
        """the text may be not changed"""
        alg = self.alg
        t = self.plain(after)
        if t is before:
            return True
        if t.op == 'slice' and t.args[3] is alg.none and t.args[2] is alg.none and self.may_be_same(t.args[0], before, guard):
            lo = t.args[1]
            if lo is alg.none:
                return True
            c, m = alg.aslin(lo)
            if not m:
                return c == 0
            if not self.free(lo):
                return False
            f = self.facts(guard, list(m))
            f = f.copy()
            f.add(c, m)
            f.add(-c, {x: -k for x, k in m.items()})
            return not f.infeasible()
        if t.op == 'meth' and t.args[1] in SAME:
            return self.may_be_same(t.args[0], before, guard)
        if t.op == 'meth' and t.args[1] == 'sub':
            return any(self.may_be_same(x, before, guard) for x in t.args[2])
        if t.op == 'concat' and len(t.args) == 3:
            # one option is replaced by the other of the same set: and the other way round
            a, x, b = t.args
            if a.op == b.op == 'slice' and a.args[0] is before and b.args[0] is before and x.op == 'elem':
                c, m = alg.aslin(b.args[1])
                other = [y.args[1][0] for y in m if y.op == 'ext' and y.args[0] == 'len']
                return any(o.op == 'elem' and o.args[0] is x.args[0] for o in other)
        if t.op == 'seq':
            # all of them may pass the filter
            return any(i.kind == 'one' and len(i.binders) == 1 and i.term is i.binders[0] and i.term.args[0] is before
                       for i in t.args[1])
        if t.op == 'call' and t.args[0].qual in self.tables:
            return any(self.may_be_same(x, before, guard) for _, x in t.args[1])
        if t.op == 'index' and t.args[1].op == 'const' and t.args[1].args[1] == 0 or t.op == 'elem':
            b = self.plain(t.args[0])
            if b.op == 'meth' and b.args[1] in ('split', 'rsplit') and b.args[2] and self.may_be_same(b.args[0], before, guard):
                return alg.AND(guard, alg.NOT(alg.contains(b.args[2][0], b.args[0]))) != 0
        if t.op == 'elem' and t.args[0].op in ('call', 'gen') and t.args[0].args[0].qual in self.parts:
            return any(x is before for _, x in t.args[0].args[1])
        return False

    # -- recursion

    def recursion(self, e, params, skip=('self', 'cls')):
        """call of the function inside of itself (params: name -> term before): (verdict, detail)"""
        alg, eng = self.alg, self.eng
        guard = self.comparer.sat(e.guard)
        if guard == 0:
            return 'ok', 'is not called'
        self.binders = e.binders
        args = dict(e.term.args[1])
        pairs = {n: (params[n], args[n]) for n in params if n in args and n not in skip}
        fixed = set()
        moving = {p for p, a in pairs.values() if p is not a}
        for n, (p, a) in pairs.items():
            after = [(g, t) for g, t in eng.alts(a) if alg.AND(guard, g)]
            if all(self.number(t) for _, t in after) and all(t is not p for _, t in after):
                for sign, cmp in ((1, self.more), (-1, self.less)):
                    if all(cmp(alg.AND(guard, g), p, t) for g, t in after) and \
                            self.bounded(guard, p, [t for _, t in after], moving, sign):
                        return 'ok', f'{n} moves towards its bound'
            off = alg.truth(p)
            if off > 1 and all(t.op == 'const' for _, t in after):
                for val, side in ((True, off), (False, alg.NOT(off))):
                    if all(bool(t.args[1]) is val for _, t in after) and alg.AND(guard, side) == 0:
                        return 'ok', f'{n} is set once'
            if self.textual(p) and all(self.shorter(alg.AND(guard, g), p, t) for g, t in after):
                return 'ok', f'{n} becomes shorter'
            if all(self.part_of(alg.AND(guard, g), p, t) for g, t in after):
                return 'ok', f'{n} is one of parts'
        for n, (p, a) in pairs.items():
            for n2, (p2, a2) in pairs.items():
                if n != n2 and self.number(a2) and self.textual(p):
                    after, after2 = [list(eng.alts(x)) for x in (a, a2)]
                    if self.gap(guard, p, after, p2, after2):
                        return 'ok', f'{n2} moves towards the end of {n}'
        # the same again
        again = guard
        sub = {}
        grow = []
        for n, (p, a) in pairs.items():
            if a is p:
                continue
            same = 0
            for g, t in eng.alts(a):
                g = alg.AND(guard, g)
                if not g:
                    continue
                if t.op == 'const' and a is t:
                    sub[p] = t
                    same = guard
                    continue
                if self.number(t) and self.more(g, p, t) or self.grows(p, t):
                    grow.append(p)
                    same = alg.OR(same, g)
                    continue
                same = alg.OR(same, self.stays(g, p, t))
            if same == 0 and not any(p in subterms(alg, [alg.atoms[v]]) for v in alg.bdd.support(guard)) and \
                    self.idle(p, pairs, n):
                continue
            if same == 0:
                return 'unknown', f'how {n} changes'
            again = alg.AND(again, same)
        for p in grow:
            again = self.later(again, p)
        if sub:
            again = alg.AND(again, alg.subst_n(again, sub))
        again = self.comparer.sat(again)
        if again == 0:
            return ('unknown' if grow else 'ok'), 'is not called again from there'
        return 'bad', 'calls itself with the same arguments when ' + self.comparer.describe(again)[:300]

    def grows(self, p, t):
        """list with something added"""
        return t.op == 'seq' and any(i.kind == 'star' and i.term is p and not i.binders for i in t.args[1])

    def idle(self, p, pairs, name):
        """the parameter doesn't decide anything"""
        return not any(p in a.fv for n, (_, a) in pairs.items() if n != name)

    def textual(self, t):
        ty = self.alg.strip_opt(self.alg.typeof(t))
        return not ty or ty[0] in ('str', 'list', 'tuple', 'coll')

    def part_of(self, guard, p, t):
        """part of the text divided by something that is in it"""
        alg = self.alg
        t = self.plain(t)
        if t.op in ('elem', 'index'):
            b = self.plain(t.args[0])
            if b.op == 'meth' and b.args[1] in ('split', 'rsplit') and b.args[2] and b.args[0] is p:
                return alg.AND(guard, alg.NOT(alg.contains(b.args[2][0], p))) == 0
        return False


def name(h):
    return str(h.args[1]) if h.op == 'phi' else show(h)


def endless_for(func):
    """for loops over endless or growing sequences: (node, what, verdict)"""
    for n in ast.walk(func.node):
        if not isinstance(n, ast.For):
            continue
        it = n.iter
        leaves = any(isinstance(x, (ast.Break, ast.Return, ast.Raise)) for s in n.body for x in ast.walk(s))
        if isinstance(it, ast.Call):
            f = ast.unparse(it.func).split('.')[-1]
            endless = f in ('count', 'cycle') and isinstance(it.func, (ast.Name, ast.Attribute)) and \
                ast.unparse(it.func) in ('count', 'cycle', 'itertools.count', 'itertools.cycle') or \
                f == 'repeat' and len(it.args) == 1
            if endless:
                yield n, f'for over {ast.unparse(it)}', 'unknown' if leaves else 'bad'
        if isinstance(it, (ast.Name, ast.Attribute)):
            src = ast.unparse(it)
            for k, s in enumerate(n.body):
                for x in ast.walk(s):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                            x.func.attr in ('append', 'extend', 'insert') and ast.unparse(x.func.value) == src:
                        always = isinstance(s, ast.Expr) and s.value is x and not leaves and \
                            not any(isinstance(y, ast.Continue) for z in n.body[:k] for y in ast.walk(z))
                        yield n, f'{src} grows while it is iterated', \
                            'ok' if only_new(x, src) else 'bad' if always or looked_up(x, n.target) else 'unknown'


def only_new(call, src):
    """what is added is tested to be not there yet"""
    for a in call.args:
        for c in ast.walk(a):
            if isinstance(c, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
                tests = [t for g in c.generators for t in g.ifs]
                if any(isinstance(y, ast.Compare) and any(ast.unparse(z) == src for z in y.comparators)
                       for t in tests for y in ast.walk(t)):
                    return True
    return False


def looked_up(call, target):
    """adds what a table has for the item: there it may refer to itself"""
    if not isinstance(target, ast.Name) or len(call.args) != 1:
        return False
    a = call.args[0]
    if isinstance(a, ast.Subscript):
        return isinstance(a.slice, ast.Name) and a.slice.id == target.id
    return isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr == 'get' and bool(a.args) and \
        isinstance(a.args[0], ast.Name) and a.args[0].id == target.id

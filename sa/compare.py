"""
Comparison of guarded events of analysed code with those of the reference.

An event of code must be covered by events of reference with the same value (soundness), and vice versa
(completeness); "covered" is implication between decision diagrams under theory axioms for their atoms.
"""

from .alg import B, Item, Term, show, show_cube, alg_show
from .bdd import TooBig
from .trust import FAMILIES, Nearness

OPAQUE_OPS = {'phi', 'unk', 'unbound', 'mu', 'mupost', 'mutated', 'apply'}

# Operations with generally known meaning: value made with them is different from value made without them.
KNOWN_METHODS = {
    'lower', 'upper', 'capitalize', 'title', 'casefold', 'swapcase', 'strip', 'lstrip', 'rstrip', 'find', 'rfind',
    'startswith', 'endswith', 'replace', 'islower', 'isupper', 'isdigit', 'istitle', 'get', 'count', 'translate',
    'append', 'add', 'split', 'rsplit', 'partition', 'rpartition', 'setdefault', 'isalpha', 'isalnum', 'isspace',
    'isnumeric', 'isdecimal',
}
KNOWN_EXT = {'len', 'range', 'str', 'int', 'abs', 'list', 'tuple', 'set', 'iter', 'sorted', 'reversed', 're.escape'}


class NEvent:
    """Event with loop elements that are not part of the value closed into guard"""
    __slots__ = ('guard', 'term', 'where', 'func', 'node', 'kind', 'order')

    def __init__(self, guard, term, where, func, node, kind, order):
        self.guard = guard
        self.term = term
        self.where = where
        self.func = func
        self.node = node
        self.kind = kind
        self.order = order


def place(t):
    """the value that a chain of in-place changes started with"""
    while True:
        if t.op == 'mupost':
            t = t.args[0]
        elif t.op == 'mu':
            t = t.args[2][t.args[1]]
        elif t.op in ('seq', 'map') and t.args[-1] and t.args[-1][0].kind == 'star' and not t.args[-1][0].binders and \
                len(t.args[-1]) > 1:
            t = t.args[-1][0].term
        else:
            return t


def is_fresh(t):
    """list, set or dict made by the function itself"""
    return t.op in ('seq', 'map') or t.op == 'slice' or \
        t.op == 'ext' and t.args[0] in ('list', 'set', 'dict', 'sorted', 'reversed', 'collections.defaultdict') or \
        t.op == 'meth' and t.args[1] in ('split', 'copy', 'findall', 'partition', 'rsplit', 'splitlines')


def normalise(eng, events):
    alg = eng.alg
    res = []
    for k, e in enumerate(events):
        g, t = e.guard, e.term
        if e.kind == 'effect' and t.op == 'mut':
            p = place(t.args[1])
            root = p
            while root.op == 'index':
                root = place(root.args[0])
            if is_fresh(root) and not any(x.op == 'elem' and place(x.args[0]) is p for x in e.binders):
                # seen in what the function gives
                continue
            t = alg.mk('mut', t.args[0], p, *t.args[2:])
        for x in e.binders:
            if x in t.fv:
                continue
            g = alg.exists(x, g)
        res.append(NEvent(g, t, e.where, e.func, e.node, e.kind, k))
    return res


def subterms(alg, roots):
    """all the terms reachable (through guards too)"""
    seen = set()
    seen_b = set()
    stack = list(roots)
    while stack:
        a = stack.pop()
        if isinstance(a, Term):
            if a in seen:
                continue
            seen.add(a)
            stack.extend(a.args)
        elif isinstance(a, B):
            if a.n in seen_b:
                continue
            seen_b.add(a.n)
            stack.extend(alg.atoms[v] for v in alg.bdd.support(a.n))
        elif isinstance(a, Item):
            stack.append(a.guard)
            stack.append(a.term)
            stack.extend(a.binders)
        elif isinstance(a, tuple):
            stack.extend(a)
    return seen


def counterpart(t, others):
    """recurrence (value carried by loop) that has another one with variables of the same types to be compared with"""
    if t.op == 'mupost':
        t = t.args[0]
    if t.op == 'mutated':
        return any(o.op == 'mutated' and o.args[1] == t.args[1] for o in others)
    if t.op != 'mu':
        return False
    sig = lambda m: [str(x._typ) for x in m.args[2]] if len(m.args) > 2 else None
    return any(o.op == 'mu' and len(o.args[2]) == len(t.args[2]) and
               [x.op for x in o.args[2]] == [x.op for x in t.args[2]] and
               o.args[0].args[0].op == t.args[0].args[0].op for o in others)


def vocabulary(terms):
    res = set()
    for t in terms:
        if t.op == 'extref' and t.args[0].startswith('re.') and t.args[0][3:].isupper():
            continue
        if t.op in ('ext', 'extref'):
            res.add(('ext', FAMILIES.get(t.args[0], t.args[0])))
        elif t.op == 'meth':
            res.add(('meth', FAMILIES.get(t.args[1], t.args[1])))
        elif t.op in ('call', 'gen'):
            res.add(('call', t.args[0].qual))
        elif t.op.startswith('op') or t.op in ('mul', 'add', 'diff', 'inter', 'union', 'position', 'posof',
                                               'replaced', 'superproxy', 'partial', 'spread'):
            res.add(('op', t.op))
    return res


class Comparer:
    def subterms(self, roots):
        return subterms(self.alg, roots)

    def __init__(self, eng):
        self.eng = eng
        self.alg = eng.alg
        self._ax = {}
        self._sat = {}
        self.hypotheses = {}        # (function, function) -> parameters matched
        self.anchors = eng.opaque | ({eng.top} if eng.top else set())
        self.near = Nearness(self)
        self.leaf_cache = {}
        self.source_cache = {}

    # -- theory

    def sat(self, n, extra=()):
        """n with axioms for its atoms (0 if contradictory)"""
        if n == 0:
            return 0
        alg = self.alg
        for _ in range(3):
            before = n
            for ax in self.axioms(n, extra):
                n = alg.AND(n, ax)
                if n == 0:
                    return 0
            if n == before:
                break
        return self.refine(n, extra)

    def refine(self, n, extra):
        """
        axioms for quantified atoms instantiated on demand: "some x has p" with "no x has q1", ..., "no x has qk"
        is contradictory if p follows q1 or ... or qk.
        """
        alg = self.alg
        bdd = alg.bdd
        for _ in range(400):
            if n == 0:
                return 0
            cube = bdd.cube(n)
            quant = [(alg.atoms[v], val) for v, val in cube.items() if alg.atoms[v].op == 'exists']
            if len(quant) < 2:
                return n
            ranged = any(a.args[0].args[0].op == 'ext' and a.args[0].args[0].args[0] == 'range' for a, _ in quant)
            pos, neg = {}, {}
            for a, val in quant:
                x, body = self.by_position(a) if ranged else (a.args[0], a.args[1].n)
                (pos if val else neg).setdefault(x, []).append((a, body))
            clause = None
            for x, ps in pos.items():
                for p, pn in ps:
                    clause = self.conflict(x, p, pn, neg.get(x, []), cube)
                    if clause is not None:
                        break
                if clause is not None:
                    break
            if clause is None:
                return n
            n = alg.AND(n, clause)
        return n

    def by_position(self, a):
        """exists over (a part of) list -> exists over positions in it"""
        alg = self.alg
        x, body = a.args
        key = ('pos', a)
        if key in self._ax:
            return self._ax[key]
        coll = x.args[0]
        res = (x, body.n)
        if not (coll.op == 'ext' and coll.args[0] == 'range') and coll.op in ('slice', 'attr', 'sym', 'index'):
            n = self.eng.range_len(coll)
            y = alg.elem(alg.ext('range', [n], ()), x.args[1])
            if y not in body.fv:
                res = (y, alg.subst_n(body.n, {x: self.eng.at_pos(coll, y)}))
        self._ax[key] = res
        return res

    def conflict(self, x, p, pn, qs, cube):
        """clause that excludes "exists p and no q" in the context of cube, if it is contradictory"""
        alg = self.alg
        bdd = alg.bdd
        if not qs:
            return None
        lits = []
        sup = set(bdd.support(pn))
        for q, qn in qs:
            sup |= bdd.support(qn)
        for v, val in cube.items():
            a = alg.atoms[v]
            if x not in a.fv and (v in sup or a.op in ('truthy', 'nonempty')):
                lits.append((v, val))
        lit = lambda l: bdd.var(l[0]) if l[1] else alg.NOT(bdd.var(l[0]))

        def contradictory(ls, rel):
            return self.sat_inner(alg.AND(pn, *[alg.NOT(qn) for _, qn in rel], *[lit(l) for l in ls])) == 0
        rel = list(qs)
        if not contradictory(lits, rel):
            return None
        for q in list(rel):
            rest = [r for r in rel if r is not q]
            if contradictory(lits, rest):
                rel = rest
        for l in list(lits):
            rest = [r for r in lits if r is not l]
            if contradictory(rest, rel):
                lits = rest
        return alg.OR(alg.NOT(alg.atom(p)), *[alg.atom(q) for q, _ in rel], *[alg.NOT(lit(l)) for l in lits])

    def sat_inner(self, n):
        if n < 2:
            return n
        if n not in self._sat:
            self._sat[n] = self.sat(n)
        return self._sat[n]

    def implies(self, a, b, extra=()):
        return self.sat(self.alg.AND(a, self.alg.NOT(b)), extra) == 0

    def axioms(self, n, extra=()):
        alg = self.alg
        bdd = alg.bdd
        vs = sorted(bdd.support(n))
        atoms = [alg.atoms[v] for v in vs]
        res = []
        imp = lambda a, b: res.append(alg.OR(alg.NOT(a), b))
        V = lambda a: alg.atom(a)
        # free elements
        fv = set()
        for a in atoms:
            fv |= a.fv
        for t in extra:
            fv |= t.fv
        for x in fv:
            if x.op == 'elem' and x.args[0].op not in ('while',):
                ne = alg.nonempty(x.args[0])
                if ne > 1 and not (bdd.support(ne) - set(vs)):
                    res.append(ne)
        by_subj = {}
        for a in atoms:
            if a.op == 'eq' and a.args[1].op in ('const', 'enum'):
                by_subj.setdefault(a.args[0], []).append(a)
        for x, lst in by_subj.items():
            for i, a in enumerate(lst):
                for b in lst[i + 1:]:
                    res.append(alg.NOT(alg.AND(V(a), V(b))))
            ty = alg.typeof(x)
            sty = alg.strip_opt(ty)
            if sty and sty[0] == 'enum':
                have = {a.args[1].args[1] for a in lst if a.args[1].op == 'enum'}
                full = have == set(sty[1].members)
                tr = alg.truth(x)
                if ty[0] == 'opt' or ty != sty:
                    for a in lst:
                        if tr in [V(b) for b in atoms]:
                            imp(V(a), tr)
                    if full and tr in [V(b) for b in atoms]:
                        imp(tr, alg.OR(*[V(a) for a in lst]))
                elif full:
                    res.append(alg.OR(*[V(a) for a in lst]))
        atomset = set(atoms)
        for a in atoms:
            if a.op == 'isnone':
                t = alg.truth(a.args[0])
                if t > 1 and bdd.support(t) <= set(vs):
                    imp(V(a), alg.NOT(t))
            if a.op == 'eq' and a.args[1].op == 'const' and a.args[1].args[1]:
                t = alg.truth(a.args[0])
                if t > 1 and bdd.support(t) <= set(vs):
                    imp(V(a), t)
            if a.op == 'eq' and a.args[1].op == 'const':
                b = alg.mk('isnone', a.args[0])
                if b in atomset:
                    res.append(alg.NOT(alg.AND(V(a), V(b))))
            if a.op == 'in':
                x, c = a.args
                t = alg.nonempty(c) if not (c.op == 'ext' and c.args[0] == 'range') else 1
                str_in_str = alg.isstr(c)
                if not str_in_str or x.op == 'const' and x.args[1]:
                    if t > 1 and bdd.support(t) <= set(vs):
                        imp(V(a), t)
            if a.op == 'overlap':
                for c in a.args:
                    t = alg.nonempty(c)
                    if t > 1 and bdd.support(t) <= set(vs):
                        imp(V(a), t)
            if a.op == 'exists':
                t = alg.nonempty(a.args[0].args[0])
                if t > 1 and len(bdd.support(t)) <= 2:
                    imp(V(a), t)
                elif t == 0:
                    res.append(alg.NOT(V(a)))
            if a.op == 'truthy' and a.args[0].op == 'meth' and a.args[0].args[1] in ('islower', 'isupper', 'isdigit',
                                                                                      'isalpha'):
                recv = a.args[0].args[0]
                t = alg.truth(recv)
                if t > 1 and bdd.support(t) <= set(vs):
                    imp(V(a), t)
                if a.args[0].args[1] == 'islower':
                    b = alg.mk('truthy', alg.mk('meth', recv, 'isupper', (), ()))
                    if b in atomset:
                        res.append(alg.NOT(alg.AND(V(a), V(b))))
            if a.op == 'isinstance':
                for b in atoms:
                    if b.op == 'isinstance' and b is not a and b.args[0] is a.args[0] and b.id > a.id and \
                            self.exclusive_types(a.args[1], b.args[1]):
                        res.append(alg.NOT(alg.AND(V(a), V(b))))
        # linear bounds
        fam = {}
        for a in atoms:
            if a.op in ('le', 'eq0'):
                c, m = alg.aslin(a.args[0])
                key = tuple(sorted((t.id, k) for t, k in m.items()))
                fam.setdefault(key, []).append((c, a, m))
                b = self.bounds(c, m)
                if b is not None:
                    lo, hi = b
                    if a.op == 'le':
                        if hi is not None and hi <= 0:
                            res.append(V(a))
                        if lo is not None and lo > 0:
                            res.append(alg.NOT(V(a)))
                    else:
                        if lo is not None and lo > 0 or hi is not None and hi < 0:
                            res.append(alg.NOT(V(a)))
        for key, lst in fam.items():
            les = sorted([(c, a) for c, a, m in lst if a.op == 'le'], key=lambda p: p[0])
            eqs = [(c, a) for c, a, m in lst if a.op == 'eq0']
            for (c1, a1), (c2, a2) in zip(les, les[1:]):
                imp(V(a2), V(a1))
            for c, a in eqs:
                for c2, a2 in les:
                    if c2 <= c:
                        imp(V(a), V(a2))
                    else:
                        res.append(alg.NOT(alg.AND(V(a), V(a2))))
                for c2, a2 in eqs:
                    if c2 != c and a2.id > a.id:
                        res.append(alg.NOT(alg.AND(V(a), V(a2))))
                # x <= k and not x <= k - 1  =>  x == k
                lo = [a2 for c2, a2 in les if c2 == c]
                hi = [a2 for c2, a2 in les if c2 == c + 1]
                if lo and hi:
                    imp(alg.AND(V(lo[0]), alg.NOT(V(hi[0]))), V(a))
            m = lst[0][2]
            if len(m) == 1:
                (t, k), = m.items()
                if t.op == 'ext' and t.args[0] == 'len' and k == 1:
                    ne = alg.nonempty(t.args[1][0])
                    if ne > 1 and bdd.support(ne) <= set(vs):
                        for c, a, _ in lst:
                            if a.op == 'le':        # len + c <= 0: c < 0 here
                                imp(alg.NOT(ne), V(a))
                                for c2, one, _ in lst:
                                    if c == c2 == -1 and one.op == 'eq0':
                                        imp(alg.AND(V(a), ne), V(one))
                            else:
                                imp(V(a), ne) if c < 0 else None
        # with equal numbers put one for another
        eqs = [(alg.aslin(a.args[0]), a) for a in atoms if a.op == 'eq0']
        if eqs:
            linear = {}
            for a in atoms:
                if a.op in ('le', 'eq0'):
                    c, m = alg.aslin(a.args[0])
                    linear[a.op, c, frozenset(m.items())] = a
            for (c1, m1), a in eqs:
                for (op, c2, m2), b in linear.items():
                    if a is b or not set(m1) & {t for t, _ in m2}:
                        continue
                    for k in (1, -1):
                        m = dict(m2)
                        for t, f in m1.items():
                            m[t] = m.get(t, 0) + k * f
                        m = {t: f for t, f in m.items() if f}
                        other = linear.get((op, c2 + k * c1, frozenset(m.items())))
                        if other is None and op == 'eq0':
                            other = linear.get((op, -c2 - k * c1, frozenset((t, -f) for t, f in m.items())))
                        if other is not None and other is not b:
                            imp(alg.AND(V(a), V(b)), V(other))
        # quantifiers over the same collection
        exs = [a for a in atoms if a.op == 'exists']
        for i, a in enumerate(exs):
            for b in exs:
                if a is not b and a.args[0] is b.args[0] and self.quick_implies(a.args[1].n, b.args[1].n):
                    imp(V(a), V(b))
            # instance for the known element
            x = a.args[0]
            for y in fv:
                if y.op == 'elem' and y.args[0] is x.args[0]:
                    inst = alg.subst_n(a.args[1].n, {x: y}) if y is not x else a.args[1].n
                    if len(bdd.support(inst)) < 60:
                        imp(inst, V(a))
            # the same for what is known to be in collection
        for a in atoms:
            if a.op == 'overlap':
                p, q = a.args
                for b in atoms:
                    if b.op == 'in' and b.args[0].op == 'elem':
                        if b.args[0].args[0] is p and b.args[1] is q or b.args[0].args[0] is q and b.args[1] is p:
                            imp(V(b), V(a))
        return res

    def quick_implies(self, a, b):
        alg = self.alg
        n = alg.AND(a, alg.NOT(b))
        if n == 0:
            return True
        key = (a, b)
        if key in self._ax:
            return self._ax[key]
        self._ax[key] = False
        if len(alg.bdd.support(n)) < 60:
            self._ax[key] = self.sat(n) == 0
        return self._ax[key]

    def bounds(self, c, m):
        """(min, max) of the linear form through the ranges its elements are from"""
        alg = self.alg
        lo = hi = alg.const(c)
        used = False
        for t, k in m.items():
            tl = th = t
            if t.op == 'elem' and t.args[0].op == 'ext' and t.args[0].args[0] == 'range' and \
                    len(t.args[0].args[1]) <= 2:
                a = t.args[0].args[1]
                tl = alg.const(0) if len(a) == 1 else a[0]
                th = alg.linadd(a[-1], alg.const(1), -1)
                used = True
            text = self.found_in(t)
            if text is not None:
                tl = alg.const(-1)
                th = alg.linadd(alg.ext('len', [text], ()), alg.const(1), -1)
                used = True
            kk = alg.const(k)
            if k > 0:
                lo = alg.linadd(lo, alg.mul(kk, tl))
                hi = alg.linadd(hi, alg.mul(kk, th))
            else:
                lo = alg.linadd(lo, alg.mul(kk, th))
                hi = alg.linadd(hi, alg.mul(kk, tl))
        if not used:
            return None
        val = lambda t: t.args[1] if t.op == 'const' else None
        # lengths are not negative
        lov, hiv = val(lo), val(hi)
        if lov is None:
            c2, m2 = alg.aslin(lo)
            if all(k > 0 and t.op == 'ext' and t.args[0] == 'len' for t, k in m2.items()):
                lov = c2
        if hiv is None:
            c2, m2 = alg.aslin(hi)
            if all(k < 0 and t.op == 'ext' and t.args[0] == 'len' for t, k in m2.items()):
                hiv = c2
        if lov is None and hiv is None:
            return None
        return lov, hiv

    def found_in(self, t):
        """text that the number is a position in (or -1), if so"""
        if t.op == 'mupost':
            t = t.args[0]
        if t.op == 'mu' and len(t.args) > 3:
            texts = {self.found_in(x) for x in (t.args[2][t.args[1]], t.args[3][t.args[1]])} if \
                t.args[1] < len(t.args[3]) else {None}
            return texts.pop() if len(texts) == 1 else None
        if t.op == 'meth' and t.args[1] in ('find', 'rfind') and t.args[2] and \
                (t.args[2][0].op in ('index', 'elem') or t.args[2][0].op == 'const' and t.args[2][0].args[1]):
            return t.args[0]
        return None

    def exclusive_types(self, a, b):
        if a.op == 'class' and b.op == 'class':
            return a.args[0] not in b.args[0].mro() and b.args[0] not in a.args[0].mro()
        return a is not b

    # -- equality of terms, as a guard

    def same(self, a, b, m=None, depth=0):
        """guard under which the terms are structurally equal; m collects renaming of elements of b"""
        alg = self.alg
        if a is b:
            return 1
        if isinstance(a, Term) and isinstance(b, Term):
            if depth > 30:
                return 0
            if a.op == 'v':
                return alg.OR(*[alg.AND(g.n, self.same(x, b, m, depth + 1)) for g, x in a.args[0]])
            if b.op == 'v':
                return alg.OR(*[alg.AND(g.n, self.same(a, x, m, depth + 1)) for g, x in b.args[0]])
            if a.op == 'closure' and b.op == 'closure':
                x, y = (alg.closure_lams.get(t) for t in (a, b))
                return self.same(x, y, m, depth + 1) if x is not None and y is not None else 1
            boolish = lambda t: t.op == 'bool' or t.op == 'const' and isinstance(t.args[1], bool)
            if boolish(a) and boolish(b):
                x, y = alg.truth(a), alg.truth(b)
                if m:
                    y = alg.subst_n(y, {k: v for k, v in m.items()})
                return alg.bdd.ite(x, y, alg.NOT(y))
            if a.op == 'call' and b.op == 'call' and a.args[0] is not b.args[0]:
                return self.same_recursion(a, b, m, depth)
            if 'seq' in (a.op, b.op) and all(x.op == 'seq' or x.op == 'ext' and x.args[0] in ('list', 'tuple', 'iter', 'set')
                                             for x in (a, b)):
                return self.same_seq(a, b, m, depth)
            if a.op == 'map' and b.op == 'map':
                return self.same_seq(a, b, m, depth)
            for x, y in ((a, b), (b, a)):
                if x.op == 'seq' and x.args[0] == 'list' and not x.args[1] and y.op == 'index' and \
                        (alg.typeof(y) or ('list',))[0] == 'list':
                    # an empty list instead of the one that is empty
                    return alg.NOT(alg.truth(y))
            if a.op != b.op or len(a.args) != len(b.args):
                return 0
            if a.op == 'elem' and a.args[1] != b.args[1]:
                return 0
            g = 1
            for x, y in zip(a.args, b.args):
                g = alg.AND(g, self.same(x, y, m, depth + 1))
                if g == 0:
                    return 0
            if a.op == 'elem' and m is not None:
                m[b] = a
            return g
        if isinstance(a, B) and isinstance(b, B):
            y = b.n
            if m:
                y = alg.subst_n(y, dict(m))
            return alg.bdd.ite(a.n, y, alg.NOT(y))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return 0
            g = 1
            for x, y in zip(a, b):
                g = alg.AND(g, self.same(x, y, m, depth + 1))
                if g == 0:
                    return 0
            return g
        if isinstance(a, Item) and isinstance(b, Item):
            if a.kind != b.kind or a.binders != b.binders:
                return 0
            return alg.AND(self.same(a.guard, b.guard, m, depth + 1), self.same(a.term, b.term, m, depth + 1))
        return 1 if a == b else 0

    def same_seq(self, a, b, m, depth):
        """the same elements in the same order"""
        alg = self.alg
        kind = lambda t: t.args[0] == 'set' if t.op in ('seq', 'ext') else t.op == 'map' and all(i.kind == 'multi' for i in t.args[0])
        if kind(a) != kind(b):
            return 0
        if a.op == 'map':
            xs, ys = list(a.args[0]), list(b.args[0])
        else:
            xs, ys = alg.items_of(a), alg.items_of(b)
        g = 1
        sames = {}
        for i, x in enumerate(xs):
            for j, y in enumerate(ys):
                if x.kind == y.kind and len(x.binders) == len(y.binders):
                    mm = dict(m or {})
                    c = self.same(x.term, y.term, mm, depth + 1)
                    if c and x.binders != y.binders and any(mm.get(v, v) is not u for u, v in zip(x.binders, y.binders)):
                        c = 0
                    if c:
                        yg = alg.subst_n(y.guard.n, mm) if mm else y.guard.n
                        sames[i, j] = c, yg
        for i, x in enumerate(xs):
            cov = alg.OR(*[alg.AND(c, yg) for (i2, j), (c, yg) in sames.items() if i2 == i])
            g = alg.AND(g, alg.NOT(alg.close_all(alg.AND(x.guard.n, alg.NOT(cov)), x.binders)))
            if g == 0:
                return 0
        for j, y in enumerate(ys):
            rel = [(i, c, yg) for (i, j2), (c, yg) in sames.items() if j2 == j]
            if not rel:
                g = alg.AND(g, alg.NOT(alg.close_all(y.guard.n, y.binders)))
                continue
            cov = alg.OR(*[alg.AND(c, xs[i].guard.n) for i, c, yg in rel])
            g = alg.AND(g, alg.NOT(alg.close_all(alg.AND(rel[0][2], alg.NOT(cov)), xs[rel[0][0]].binders)))
            if g == 0:
                return 0
        if not kind(a):
            # order: no two elements come in the other one in the opposite order only
            for i, x in enumerate(xs):
                for k in range(i + 1, len(xs)):
                    z = xs[k]
                    both = self.together(x, z)
                    if both == 0 or x.term is z.term:
                        continue
                    js = [j for (i2, j) in sames if i2 == i]
                    ks = [j for (i2, j) in sames if i2 == k]
                    if any(p < q and alg.AND(both, self.together(ys[p], ys[q])) for p in js for q in ks):
                        continue
                    for p in js:
                        for q in ks:
                            if p > q:
                                g = alg.AND(g, alg.NOT(alg.AND(both, self.together(ys[p], ys[q]))))
        return g

    def together(self, x, z):
        """guard: both items are present (for the same elements of loops they share)"""
        alg = self.alg
        k = 0
        while k < min(len(x.binders), len(z.binders)) and x.binders[-1 - k] is z.binders[-1 - k]:
            k += 1
        inner = lambda y: alg.close_all(y.guard.n, y.binders[:len(y.binders) - k])
        return alg.close_all(alg.AND(inner(x), inner(z)), x.binders[len(x.binders) - k:])

    def same_recursion(self, a, b, m, depth):
        """
        recursive calls of different functions: the same if arguments are, given that the functions are the same
        (which is checked separately: see hypotheses)
        """
        alg = self.alg
        f, g = a.args[0], b.args[0]
        if not self.recursive(f) and not self.recursive(g) or f.qual in self.anchors and g.qual in self.anchors:
            return 0
        left = dict(a.args[1])
        right = dict(b.args[1])
        pairs = []
        cond = 1
        for n in list(left):
            if n in right:
                pairs.append((n, n))
        rest_l = [n for n in left if n not in [p for p, _ in pairs]]
        rest_r = [n for n in right if n not in [p for _, p in pairs]]
        for n in list(rest_l):
            for k in list(rest_r):
                if self.same(left[n], right[k], None, depth + 1) == 1:
                    pairs.append((n, k))
                    rest_l.remove(n)
                    rest_r.remove(k)
                    break
        # the rest is by position
        for n, k in list(zip(rest_l, rest_r)):
            pairs.append((n, k))
        for n, k in pairs:
            cond = alg.AND(cond, self.same(left[n], right[k], m, depth + 1))
        if cond:
            self.hypotheses.setdefault((f, g), tuple(pairs))
        return cond

    def recursive(self, f):
        return f.qual not in self.anchors

    def cover(self, e, others):
        """guard under which event is covered by the others"""
        alg = self.alg
        cov = 0
        rest = []
        for o in others:
            if o.term is e.term:
                cov = alg.OR(cov, o.guard)
            else:
                rest.append(o)
        if alg.AND(e.guard, alg.NOT(cov)) == 0:
            return cov
        for o in rest:
            if not self.comparable(e.term, o.term):
                continue
            m = {}
            g = self.same(e.term, o.term, m)
            if g:
                og = alg.subst_n(o.guard, m) if m else o.guard
                cov = alg.OR(cov, alg.AND(og, g))
        return cov

    def check_cover(self, events, others, where_from, vocab_of, assume=1):
        """
        every event must be covered by the others.
        -> list of (event, status, missing guard): status ok | bad | unknown
        """
        alg = self.alg
        res = []
        other_roots = [o.term for o in others] + [alg.B(o.guard) for o in others]
        other_terms = own_terms = None
        for e in events:
            g = alg.AND(e.guard, assume)
            try:
                if self.sat(g, (e.term,)) == 0:
                    res.append((e, 'ok', 0))
                    continue
                cov = self.cover(e, others)
                missing = self.sat(alg.AND(g, alg.NOT(cov)), (e.term,))
            except TooBig:
                res.append((e, 'unknown', None))
                continue
            if missing == 0:
                res.append((e, 'ok', 0))
                continue
            if other_terms is None:
                other_terms = subterms(alg, other_roots)
                own_terms = subterms(alg, [o.term for o in events] + [alg.B(o.guard) for o in events])
                code, ref = (own_terms, other_terms) if vocab_of == 'events' else (other_terms, own_terms)
                plain = not any(t.op in OPAQUE_OPS and t not in ref and not counterpart(t, ref) for t in code) and \
                    not self.unknown_vocab(own_terms, other_terms, vocab_of) and not self.positions(code) - self.positions(ref)
            mine = subterms(alg, [e.term, alg.B(e.guard)])
            status = 'bad'
            reason = None
            for a, b in ((mine, other_terms), (other_terms, own_terms)):
                op = [t for t in a if t.op in OPAQUE_OPS and t not in b and not counterpart(t, b)]
                if plain and (a is other_terms) == (vocab_of == 'events'):
                    # everything in the code is known: it is the reference that carries the value
                    op = [t for t in op if t.op not in ('mu', 'mupost')]
                if a is other_terms:
                    # only those that could cover this event
                    op = [t for t in op if any(t in subterms(alg, [o.term, alg.B(o.guard)]) for o in others
                                               if self.comparable(e.term, o.term))]
                if op:
                    status = 'unknown'
                    reason = f'not decided: value not tracked ({show(op[0])[:80]})'
            if status == 'bad':
                unknown = self.unknown_vocab(mine, other_terms, vocab_of)
                if unknown:
                    status = 'unknown'
                    reason = f'not decided: {unknown}'
            if status == 'bad' and not self.definite(e, events, others, vocab_of) and not self.one_leaf(events, others, assume):
                status = 'unknown'
                reason = 'not decided: expressed in another way'
            res.append((e, status, missing if reason is None else reason))
        return res

    def definite(self, e, events, others, vocab_of):
        """the difference is in particular places, not in the way everything is expressed"""
        alg = self.alg
        try:
            alike = lambda a, b: a is b or (self.comparable(a, b) and self.same(a, b, {}) != 0)
            peers = [o for o in others if alike(e.term, o.term)]
            # events of other side that nothing here corresponds to
            left = [o for o in others if o not in peers and not any(alike(x.term, o.term) for x in events)]
            order = (lambda a, b: (a, b)) if vocab_of == 'events' else (lambda a, b: (b, a))
            close_to = lambda x, o: self.near.diff(*order(x.term, o.term)) is not None or \
                self.near.diff(*order(self.fixed(x), self.fixed(o))) is not None
            close = [o for o in left if close_to(e, o)]
            if not peers:
                if close or not left:
                    return True
                # what is left corresponds to other events
                rest = [x for x in events if x is not e and not any(alike(x.term, o.term) for o in others)]
                return all(any(close_to(x, o) for x in rest) for o in left)
            if len(close) < len(left):
                return False
            if not any(o.term is e.term or close_to(e, o) for o in peers):
                return False
            own = [x for x in events if alike(x.term, e.term)]
            mine, their = alg.OR(*[x.guard for x in own]), alg.OR(*[o.guard for o in peers])
            if self.loop_exits(mine, their, events + others):
                return False
            return self.near.guards(*order(mine, their)) is not None
        except TooBig:
            return False

    def one_leaf(self, events, others, assume):
        """everything is the same but for one constant or setting, wherever it is used"""
        alg = self.alg
        key = tuple((e.guard, e.term) for e in events), tuple((e.guard, e.term) for e in others), assume
        if key in self.leaf_cache:
            return self.leaf_cache[key]
        if key[::-1] in self.leaf_cache:
            return self.leaf_cache[key[::-1]]
        self.leaf_cache[key] = False
        leaves = []
        for side in (events, others):
            terms = subterms(alg, [e.term for e in side] + [alg.B(e.guard) for e in side])
            leaves.append({t for t in terms if t.op == 'const' and not isinstance(t.args[1], (bool, type(None))) or
                           t.op == 'attr' and self.near.known_attr(t) and t.args[0].op in ('sym', 'attr')})
        mine, their = leaves[0] - leaves[1], leaves[1] - leaves[0]
        if len(mine) != 1 or len(their) != 1:
            return False
        (x,), (y,) = mine, their
        if alg.typeof(x) != alg.typeof(y):
            return False
        try:
            m = {x: y}
            changed = [NEvent(alg.subst_n(e.guard, m), alg.subst(e.term, m), e.where, e.func, e.node, e.kind, e.order) for e in events]
            a = alg.subst_n(assume, m)
            same = all(self.sat(alg.AND(e.guard, a, alg.NOT(self.cover(e, there))), (e.term,)) == 0
                       for here, there in ((changed, others), (others, changed)) for e in here)
        except TooBig:
            return False
        self.leaf_cache[key] = same
        return same

    def fixed(self, e):
        """the term with what its guard says is equal to a constant"""
        alg = self.alg
        m = {}
        for v, val in alg.bdd.forced(e.guard).items() if e.guard > 1 else ():
            a = alg.atoms[v]
            if val and a.op == 'eq':
                for x, y in (a.args, a.args[::-1]):
                    if y.op == 'const' and x.op != 'const':
                        m[x] = y
        return alg.subst(e.term, m) if m else e.term

    def loop_exits(self, m, n, events):
        """guards depend differently on what happens in a loop that gives other events"""
        alg = self.alg
        atoms = [alg.atoms[v] for v in alg.bdd.support(m) ^ alg.bdd.support(n)]
        loops = {x.args[0].args[0] for x in atoms if x.op == 'exists'}
        return any(not loops.isdisjoint(self.sources(e.term)) for e in events)

    def sources(self, term):
        got = self.source_cache.get(term)
        if got is None:
            got = self.source_cache[term] = {x.args[0] for x in subterms(self.alg, [term]) if x.op == 'elem'}
        return got

    def positions(self, terms):
        """numbers of elements: counting may be done with them"""
        return {t for t in terms if t.op == 'ext' and t.args[0] in ('range', 'len', 'enumerate', 'zip')}

    def methods(self):
        """names of methods that references know"""
        return {q.split(':')[1].split('.')[1] for q in self.anchors if '.' in q.split(':')[1]}

    def comparable(self, a, b):
        return a.op == b.op or 'v' in (a.op, b.op) or {a.op, b.op} == {'seq', 'index'}

    def unknown_vocab(self, mine, others, vocab_of):
        """operations of the code the reference doesn't know"""
        a = vocabulary(mine)
        b = vocabulary(others)
        code, ref = (a, b) if vocab_of == 'events' else (b, a)
        extra = []
        for kind, name in code - ref - getattr(self, 'ref_vocab', set()):
            if kind == 'meth' and name in KNOWN_METHODS or kind == 'ext' and name in KNOWN_EXT:
                continue
            if kind == 'call' or kind == 'meth' and name in self.methods():
                continue
            extra.append(f'{kind} {name}')
        return ', '.join(sorted(extra)) or None

    def describe(self, missing):
        if isinstance(missing, str):
            return missing
        if missing is None:
            return 'guard too large'
        cube = self.alg.bdd.cube(missing)
        return show_cube(self.alg, cube)

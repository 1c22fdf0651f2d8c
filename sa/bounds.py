"""
Bounds of positions: is the item taken (by position, by key, as the first one) always there.

Conditions of the place (guard) give linear facts about lengths and positions; ranges, searches and values carried by
loops give more of them. The position must be inside of the sequence by these facts (convex constraints, variables
eliminated one by one). What doesn't follow is reported only if everything the guard says about the sequence and the
position is understood.
"""

import ast
import itertools

from .alg import show
from .compare import Comparer, subterms

LIMIT = 250         # constraints in one elimination
SPLITS = 7          # atoms by which the guard is split

# the methods keep (or don't reduce) the number of letters
KEEP = {'lower', 'upper', 'capitalize', 'title', 'swapcase', 'casefold', 'translate'}
TESTS = {'isupper', 'islower', 'isdigit', 'isalpha', 'isalnum', 'istitle', 'isnumeric', 'isdecimal', 'isspace'}


class Facts:
    """conjunction of linear constraints: sum(coef * term) + const <= 0"""

    def __init__(self, rows=(), differ=()):
        self.rows = list(rows)
        self.differ = list(differ)

    def copy(self):
        return Facts(self.rows, self.differ)

    def add(self, const, coefs):
        coefs = {t: c for t, c in coefs.items() if c}
        if all(isinstance(c, int) for c in coefs.values()) and isinstance(const, int):
            row = (const, coefs)
            if row not in self.rows:
                self.rows.append(row)

    def related(self, coefs):
        terms = set(coefs)
        rest = list(self.rows)
        res = []
        again = True
        while again:
            again = False
            for r in list(rest):
                if not r[1] or terms & set(r[1]):
                    terms |= set(r[1])
                    res.append(r)
                    rest.remove(r)
                    again = True
        return res

    def infeasible(self, const=0, coefs=None):
        """no values satisfy the facts with sum + const <= 0 (True), or it is not known"""
        rows = self.related(coefs or {}) if coefs is not None else list(self.rows)
        if coefs is not None:
            rows.append((const, coefs))
        return eliminate(rows)

    def entails(self, const, coefs):
        """sum + const <= 0 follows"""
        return self.infeasible(1 - const, {t: -c for t, c in coefs.items()})

    def settle(self):
        """what is not equal, and is not less, is more"""
        for _ in range(2):
            for const, coefs in self.differ:
                neg = {t: -c for t, c in coefs.items()}
                if self.entails(-const, neg):
                    self.add(1 - const, neg)
                elif self.entails(const, coefs):
                    self.add(const + 1, coefs)


def eliminate(rows):
    seen = {}

    def put(out, const, coefs):
        if not coefs:
            return const > 0
        key = frozenset(coefs.items())
        old = out.get(key)
        if old is None or const > old:
            out[key] = const
        return False
    cur = {}
    for const, coefs in rows:
        if put(cur, const, {t: c for t, c in coefs.items() if c}):
            return True
    while cur:
        count = {}
        for key in cur:
            for t, c in key:
                p, n = count.get(t, (0, 0))
                count[t] = (p + (c > 0), n + (c < 0))
        t = min(count, key=lambda t: (count[t][0] * count[t][1], t.id))
        pos, neg, out = [], [], {}
        for key, const in cur.items():
            d = dict(key)
            if d.get(t, 0) > 0:
                pos.append((const, d))
            elif d.get(t, 0) < 0:
                neg.append((const, d))
            else:
                out[key] = const
        for c1, d1 in pos:
            for c2, d2 in neg:
                a, b = -d2[t], d1[t]
                d = {}
                for x, k in d1.items():
                    d[x] = d.get(x, 0) + a * k
                for x, k in d2.items():
                    d[x] = d.get(x, 0) + b * k
                if put(out, a * c1 + b * c2, {x: k for x, k in d.items() if k}):
                    return True
                if len(out) > LIMIT:
                    return False
        cur = out
    return False


class Bounds:
    def __init__(self, run, assumed=None, may_be_empty=(), guess=None, letters=(), empty=(), texts=(), numbers=()):
        self.run = run
        self.alg = run.alg
        self.eng = run.eng
        self.comparer = Comparer(run.eng)
        self.assumed = assumed or (lambda t: False)     # terms that are never empty
        self.may_be_empty = set(may_be_empty)   # functions
        self.guess = guess
        self.guessed = [guess.rsplit('.', 1)[0] + n for n in ('.variants', '.corrections')] if guess else []
        self.letters = letters                  # functions that give nothing for an empty word
        self.empty = set(empty)                 # attributes, texts of which may be empty
        self.texts = set(texts)                 # functions that give any texts (or change them, keeping any)
        self.numbers = set(numbers)             # attributes, numbers that may be any from 1
        self.binders = ()
        self.mus = {}

    # -- lengths

    def length(self, t):
        """length as (const, coefs)"""
        alg = self.alg
        t = self.plain(t)
        if t.op == 'const' and isinstance(t.args[1], str):
            return len(t.args[1]), {}
        if t.op == 'concat':
            const, coefs = 0, {}
            for p in t.args:
                c, m = self.length(p)
                const += c
                for x, k in m.items():
                    coefs[x] = coefs.get(x, 0) + k
            return const, coefs
        if t.op == 'seq' and all(i.kind == 'one' and not i.binders and i.guard.n == 1 for i in t.args[1]):
            return len(t.args[1]), {}
        if t.op == 'seq' and len(t.args[1]) == 1 and t.args[1][0].kind == 'one' and t.args[1][0].guard.n == 1 and \
                len(t.args[1][0].binders) == 1:
            return self.count(t.args[1][0].binders[0].args[0])
        return 0, {alg.ext('len', [t], ()): 1}

    def count(self, coll):
        if coll.op == 'ext' and coll.args[0] == 'range' and len(coll.args[1]) == 1:
            n = coll.args[1][0]
            return self.alg.aslin(n)
        return self.length(coll)

    def plain(self, t):
        while True:
            if t.op == 'ext' and t.args[0] in ('list', 'tuple', 'sorted', 'reversed') and len(t.args[1]) == 1:
                t = t.args[1][0]
            elif t.op == 'mutated' and t.args[1] in ('setitem', 'nested setitem'):
                t = t.args[0]
            elif t.op == 'mupost':
                t = t.args[0]
            elif t.op == 'mu' and self.only_items(t):
                t = t.args[2][t.args[1]]
            elif t.op == 'index' and self.row(t) is not None:
                t = self.row(t)
            else:
                return t

    def only_items(self, t):
        """list, items of which are changed by loop"""
        step = t.args[3][t.args[1]]

        def same(x, depth=0):
            if depth > 12:
                return False
            if x.op == 'hole':
                return x.args[0] == t.args[1] or depth > 0
            if x.op == 'mutated' and x.args[1] in ('setitem', 'nested setitem'):
                return same(x.args[0], depth + 1)
            if x.op == 'mupost':
                return same(x.args[0], depth + 1)
            if x.op == 'mu':
                return same(x.args[2][x.args[1]], depth + 1) and same(x.args[3][x.args[1]], depth + 1)
            if x.op == 'v':
                return all(same(y, depth + 1) for _, y in x.args[0])
            if x.op == 'index':
                return False
            return False
        return same(step)

    def row(self, t):
        """one of the lists of which the list is made, if they are alike"""
        base = self.plain(t.args[0])
        if base.op == 'seq' and base.args[0] == 'list' and len(base.args[1]) == 1:
            i = base.args[1][0]
            if i.kind == 'one' and i.guard.n == 1 and i.term.op == 'seq' and not set(i.binders) & i.term.fv:
                return i.term
        return None

    # -- facts

    def literal(self, atom, val, facts):
        """the fact given by atom; False if it is not understood"""
        alg = self.alg
        op = atom.op
        if op == 'le':
            c, m = alg.aslin(atom.args[0])
            if val:
                facts.add(c, m)
            else:
                facts.add(1 - c, {t: -k for t, k in m.items()})
            return True
        if op == 'eq0':
            c, m = alg.aslin(atom.args[0])
            if val:
                facts.add(c, m)
                facts.add(-c, {t: -k for t, k in m.items()})
            else:
                facts.differ.append((c, m))
            return True
        if op in ('truthy', 'nonempty'):
            t = atom.args[0]
            if t.op == 'meth' and t.args[1] in TESTS:
                if val:
                    self.size(t.args[0], 1, facts)
                return True
            if t.op == 'meth' and t.args[1] in ('startswith', 'endswith') and len(t.args[2]) == 1:
                if val:
                    c, m = self.length(t.args[2][0])
                    c2, m2 = self.length(t.args[0])
                    facts.add(c - c2, self.minus(m, m2))
                return True
            if t.op == 'meth' and t.args[1] in ('match', 'search', 'fullmatch'):
                return True
            if self.sized(t):
                if val:
                    self.size(t, 1, facts)
                else:
                    c, m = self.length(t)
                    facts.add(c, m)
                return True
            if alg.isnum(t):
                facts.differ.append(alg.aslin(t))
                return True
            if val and t.op in ('elem', 'index'):
                self.size(t, 1, facts)
            return t.op in ('sym', 'attr', 'elem')
        if op == 'eq':
            x, y = atom.args
            if self.guess and x.op == 'index' and x.args[0].op == 'call' and x.args[1].op == 'const' and x.args[1].args[1] == 0 and \
                    x.args[0].args[0].qual in self.guessed:
                # the type together with the variants
                x = x.args[0]
            if self.guess and x.op == 'call' and x.args[0].qual in (self.guess, *self.guessed) and y.op == 'enum':
                word = dict(x.args[1]).get('word')
                if word is not None and (val and y.args[1] != 'HUH' or not val and y.args[1] == 'HUH'):
                    self.size(word, 1, facts)
                return True
            if self.sized(x) and self.sized(y):
                c, m = self.length(x)
                c2, m2 = self.length(y)
                if val:
                    facts.add(c - c2, self.minus(m, m2))
                    facts.add(c2 - c, self.minus(m2, m))
                elif y.op == 'const' and y.args[1] == '':
                    facts.add(1 - c, {t: -k for t, k in m.items()})
                return True
            return y.op in ('const', 'enum') or x.op in ('index', 'elem')
        if op == 'exists':
            if val:
                coll = atom.args[0].args[0]
                if self.sized(coll) or coll.op == 'ext' and coll.args[0] == 'range':
                    c, m = self.count(coll)
                    facts.add(1 - c, {t: -k for t, k in m.items()})
            return True
        if op == 'in':
            x, coll = atom.args
            if val and self.sized(coll):
                if alg.isstr(coll):
                    facts.add(0, {alg.meth(coll, 'find', (x,)): -1})
                    c, m = self.length(x) if self.sized(x) else (0, {})
                else:
                    c, m = 1, {}
                c2, m2 = self.length(coll)
                facts.add(c - c2, self.minus(m, m2))
            return True
        return op in ('isnone', 'overlap', 'ltf', 'lef', 'cmp<', 'cmp<=')

    @staticmethod
    def minus(a, b):
        res = dict(a)
        for t, k in b.items():
            res[t] = res.get(t, 0) - k
        return res

    def size(self, t, k, facts):
        """len(t) >= k"""
        p = self.plain(t)
        if p.op == 'meth' and p.args[1] in KEEP and k == 1:
            self.size(p.args[0], k, facts)
        if p.op == 'slice' and p.args[3] is self.alg.none and k == 1:
            self.size(p.args[0], k, facts)
        c, m = self.length(t)
        facts.add(k - c, {x: -v for x, v in m.items()})

    def sized(self, t):
        ty = self.alg.strip_opt(self.alg.typeof(t))
        if ty:
            return ty[0] in ('str', 'list', 'tuple', 'coll', 'set', 'dict')
        return t.op in ('concat', 'slice', 'seq') or t.op == 'sym'

    def axioms(self, terms, facts, seen):
        """what is known of the terms themselves"""
        alg = self.alg
        todo = [t for t in terms if t not in seen]
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)

            def more(m):
                todo.extend(x for x in m if x not in seen)
            if t.op == 'ext' and t.args[0] == 'len':
                b = t.args[1][0]
                facts.add(0, {t: -1})
                if self.assumed(b):
                    facts.add(1, {t: -1})
                p = self.plain(b)
                if p.op == 'meth' and p.args[1] in KEEP:
                    c, m = self.length(p.args[0])
                    facts.add(c, self.minus(m, {t: 1}))
                    more(m)
                if p.op == 'slice' and p.args[3] is alg.none:
                    base, lo, hi, _ = p.args
                    c, m = self.length(base)
                    facts.add(-c, self.minus({t: 1}, m))
                    more(m)
                    if lo is alg.none and hi.op == 'const' and isinstance(hi.args[1], int) and hi.args[1] >= 0:
                        facts.add(-hi.args[1], {t: 1})
                if p.op == 'meth' and p.args[1] in ('split', 'rsplit') and p.args[2]:
                    facts.add(1, {t: -1})
                continue
            if t.op == 'elem':
                coll = self.plain(t.args[0])
                if coll.op == 'ext' and coll.args[0] == 'range':
                    a = coll.args[1]
                    lo, hi = (alg.const(0), a[0]) if len(a) == 1 else (a[0], a[1])
                    if len(a) < 3 or a[2].op == 'const' and isinstance(a[2].args[1], int) and a[2].args[1] > 0:
                        c, m = alg.aslin(lo)
                        facts.add(c, self.minus(m, {t: 1}))
                        c, m2 = alg.aslin(hi)
                        facts.add(1 - c, self.minus({t: 1}, m2))
                        more(m)
                        more(m2)
                continue
            if t.op in ('min', 'max'):
                for x in t.args:
                    c, m = alg.aslin(x)
                    if t.op == 'min':
                        facts.add(-c, self.minus({t: 1}, m))
                    else:
                        facts.add(c, self.minus(m, {t: 1}))
                    more(m)
                continue
            if t.op == 'meth' and t.args[1] in ('find', 'rfind'):
                facts.add(-1, {t: -1})
                c, m = self.length(t.args[0])
                k = 1 if self.one_letter(t.args[2][0]) else 0
                facts.add(k - c, self.minus({t: 1}, m))
                more(m)
                if facts.entails(0, {t: -1}) or (1, {t: 1}) in facts.differ:
                    # found: after the start, and all of it inside
                    c2, m2 = self.length(t.args[2][0])
                    facts.add(c2 - c, self.minus({**m2, t: 1}, m))
                    more(m2)
                    if len(t.args[2]) > 1:
                        c3, m3 = alg.aslin(t.args[2][1])
                        facts.add(c3, self.minus(m3, {t: 1}))
                        more(m3)
                continue
            if t.op == 'meth' and t.args[1] in ('count', 'index', 'rindex', 'start', 'end'):
                facts.add(0, {t: -1})
                continue
            if t.op == 'attr' and t.args[1] in self.numbers:
                facts.add(1, {t: -1})
                continue
            if t.op in ('mu', 'mupost'):
                for c, m in self.carried(t):
                    facts.add(c, m)
                    more(m)

    @staticmethod
    def one_letter(t):
        return t.op == 'const' and bool(t.args[1]) or t.op in ('elem', 'index')

    def carried(self, t):
        """bounds of a value carried by loop, by induction"""
        if t in self.mus:
            return self.mus[t]
        self.mus[t] = []
        alg = self.alg
        mu = t.args[0] if t.op == 'mupost' else t
        if mu.op != 'mu' or not alg.isnum(mu):
            return []
        init = mu.args[2][mu.args[1]]
        step = mu.args[3][mu.args[1]]
        hole = next((x for x in subterms(alg, [step]) if x.op == 'hole' and x.args[0] == mu.args[1]), None)
        values = [x for _, x in self.eng.alts(init)] + [x for _, x in self.eng.alts(step)]
        cands = [(0, {None: -1}), (-1, {None: -1})]
        for x in subterms(alg, values):
            if x.op == 'meth' and x.args[1] in ('find', 'rfind'):
                c, m = self.length(x.args[0])
                cands.append((1 - c, {None: 1, **{y: -k for y, k in m.items()}}))
        res = []
        for c, m in cands:
            ok = True
            for v in values:
                f = Facts()
                if hole is not None:
                    f.add(c, {(hole if x is None else x): k for x, k in m.items()})
                vc, vm = alg.aslin(v)
                goal = {x: k for x, k in m.items() if x is not None}
                k = m[None]
                for x, kk in vm.items():
                    goal[x] = goal.get(x, 0) + k * kk
                self.axioms([x for x in goal], f, set())
                if not f.entails(c + k * vc, goal):
                    ok = False
                    break
            if ok:
                res.append((c, {(t if x is None else x): k for x, k in m.items()}))
        self.mus[t] = res
        return res

    # -- goals

    def facts(self, guard, terms, given=None):
        """(facts, atoms of guard still not decided) or None if contradictory"""
        alg = self.alg
        facts = (given or Facts()).copy()
        for v, val in alg.bdd.forced(guard).items():
            self.literal(alg.atoms[v], val, facts)
        for x in self.binders:
            coll = self.plain(x.args[0]) if x.op == 'elem' else x
            if coll.op == 'call' and coll.args[0].qual in self.letters:
                self.size(dict(coll.args[1])['word'], 1, facts)
        seen = set()
        self.axioms(terms, facts, seen)
        for _ in range(3):
            more = [t for _, m in facts.rows for t in m if t not in seen]
            for _, m in facts.differ:
                more += [t for t in m if t not in seen]
            if not more:
                break
            self.axioms(more, facts, seen)
        facts.settle()
        self.exact(facts)
        return facts

    def exact(self, facts):
        """lengths of slices with known ends"""
        alg = self.alg
        for t in {t for _, m in facts.rows for t in m if t.op == 'ext' and t.args[0] == 'len'}:
            p = self.plain(t.args[1][0])
            if p.op != 'slice' or p.args[3] is not alg.none:
                continue
            base, lo, hi, _ = p.args
            l = self.length(base)
            l0, h0 = (0, {}) if lo is alg.none else alg.aslin(lo), l if hi is alg.none else alg.aslin(hi)
            inside = lambda x: facts.entails(-x[0], {y: -k for y, k in x[1].items()}) and \
                facts.entails(x[0] - l[0], self.minus(x[1], l[1]))
            if lo is not alg.none and not inside(l0) or hi is not alg.none and not inside(h0) or \
                    lo is not alg.none and hi is not alg.none and not facts.entails(l0[0] - h0[0], self.minus(l0[1], h0[1])):
                continue
            d = self.minus(self.minus({t: 1}, h0[1]), {x: -k for x, k in l0[1].items()})
            c = l0[0] - h0[0]
            facts.add(c, d)
            facts.add(-c, {x: -k for x, k in d.items()})

    def decide(self, guard, goals, terms, depth=0):
        """(proved, guard of a case in which it is not, its facts); goals: function(facts) -> bool"""
        alg = self.alg
        bdd = alg.bdd
        if guard == 0:
            return True, None, None
        facts = self.facts(guard, terms)
        if facts.infeasible() or goals(facts, guard) or self.by_choice(facts, goals, guard):
            return True, None, None
        forced = bdd.forced(guard)
        near = [v for v in sorted(bdd.support(guard)) if v not in forced and self.speaks(alg.atoms[v], facts, terms)]
        if not near or depth >= SPLITS:
            return False, guard, facts
        v = near[0]
        worst = None
        for val in (True, False):
            g = bdd.AND(guard, bdd.var(v) if val else bdd.NOT(bdd.var(v)))
            ok, case, f = self.decide(g, goals, terms, depth + 1)
            if not ok:
                worst = worst or (False, case, f)
        return worst or (True, None, None)

    def by_choice(self, facts, goals, guard):
        """proved for each of the values that min and max may choose"""
        found = []
        for _, m in facts.rows:
            for t in m:
                if t.op in ('min', 'max') and t not in found:
                    found.append(t)
        if not found or len(found) > 3:
            return False
        for chosen in itertools.product(*(t.args for t in found)):
            f = facts.copy()
            for t, x in zip(found, chosen):
                c, m = self.alg.aslin(x)
                f.add(c, self.minus(m, {t: 1}))
                f.add(-c, self.minus({t: 1}, m))
            if not f.infeasible() and not goals(f, guard):
                return False
        return True

    def speaks(self, atom, facts, terms):
        """the atom says something of the lengths and positions"""
        probe = Facts()
        self.literal(atom, True, probe)
        other = Facts()
        self.literal(atom, False, other)
        mine = set()
        for c, m in probe.rows + probe.differ + other.rows + other.differ:
            mine |= set(m)
        if not mine:
            return False
        known = set(terms)
        for _, m in facts.rows:
            known |= set(m)
        return bool(mine & known)

    def at_least(self, t, k, facts, guard, depth=0):
        """len(t) >= k"""
        alg = self.alg
        if k <= 0:
            return True
        if k == 1 and self.assumed(t):
            return True
        if k == 1 and depth == 0 and guard is not None:
            ne = alg.nonempty(t)
            if ne == 1 or ne > 1 and alg.AND(guard, alg.NOT(ne)) == 0:
                return True
        t = self.plain(t)
        if k == 1 and self.assumed(t):
            return True
        c, m = self.length(t)
        if facts.entails(k - c, {x: -v for x, v in m.items()}):
            return True
        if depth > 6:
            return False
        if t.op == 'slice' and t.args[3] is alg.none:
            base, lo, hi, _ = t.args
            zero = lo is alg.none or lo.op == 'const' and lo.args[1] == 0
            b = self.length(base)
            at = lambda want, *parts: self.holds(want, parts, facts)
            if zero and hi is not alg.none:
                h = alg.aslin(hi)
                if h[0] < 0 and not h[1]:
                    return self.at_least(base, k - h[0], facts, guard, depth + 1)
                return at(k, (1, h)) and self.at_least(base, k, facts, guard, depth + 1)
            if hi is alg.none and not zero:
                l = alg.aslin(lo)
                if l[0] < 0 and not l[1]:
                    return -l[0] >= k and self.at_least(base, k, facts, guard, depth + 1)
                return at(0, (1, l)) and at(k, (1, b), (-1, l))
            if hi is not alg.none and not zero:
                l, h = alg.aslin(lo), alg.aslin(hi)
                return at(0, (1, l)) and at(k, (1, b), (-1, l)) and at(k, (1, h), (-1, l))
            return self.at_least(base, k, facts, guard, depth + 1)
        if t.op == 'meth' and t.args[1] in KEEP:
            return self.at_least(t.args[0], k, facts, guard, depth + 1)
        if t.op == 'meth' and t.args[1] in ('partition', 'rpartition'):
            return k <= 3
        if t.op == 'meth' and t.args[1] == 'span':
            return k <= 2
        if t.op == 'meth' and t.args[1] in ('split', 'rsplit') and t.args[2]:
            if k == 1:
                return True
            sep = t.args[2][0]
            inside = alg.contains(sep, t.args[0])
            return k == 2 and guard is not None and alg.AND(guard, alg.NOT(inside)) == 0
        if t.op == 'seq':
            return sum(1 for i in t.args[1] if i.kind == 'one' and not i.binders and i.guard.n == 1) >= k
        if t.op == 'concat':
            return any(self.at_least(p, k, facts, guard, depth + 1) for p in t.args)
        return False

    def holds(self, want, parts, facts):
        """sum of parts >= want"""
        const, coefs = want, {}
        for sign, (c, m) in parts:
            const -= sign * c
            for t, k in m.items():
                coefs[t] = coefs.get(t, 0) - sign * k
        seen = set()
        self.axioms(list(coefs), facts, seen)
        return facts.entails(const, coefs)

    def check(self, event):
        """(verdict, detail) for taken item"""
        alg = self.alg
        how, (b, i) = event.extra, event.term.args
        guard = self.comparer.sat(event.guard)
        self.binders = event.binders
        if guard == 0:
            return 'ok', 'unreachable'
        ty = alg.strip_opt(alg.typeof(b))
        if how == 'member':
            inside = alg.contains(i, b)
            if alg.AND(guard, alg.NOT(inside)) == 0:
                return 'ok', 'the value is there'
            return self.unknown(event, guard, [b], f'{show(i)} may be not in {show(b)}')
        if how == 'index' and (ty and ty[0] in ('dict', 'defaultdict') or b.op == 'map' or alg.isstr(i)):
            return self.key(event, guard, b, i, ty)
        if how == 'index' and alg.AND(guard, alg.NOT(alg.contains(i, b))) == 0:
            return 'ok', 'the key is there'
        if how == 'index' and not (alg.isnum(i) or i.op in ('const', 'elem', 'lin', 'mu')):
            return 'unknown', f'kind of {show(i)[:80]} is not known'
        if ty and ty[0] == 'tuple' and i.op == 'const' and isinstance(i.args[1], int) and isinstance(ty[1], tuple) and \
                -len(ty[1]) <= i.args[1] < len(ty[1]):
            return 'ok', 'item of tuple'
        if i.op == 'const' and isinstance(i.args[1], int):
            k = i.args[1] + 1 if i.args[1] >= 0 else -i.args[1]
            terms = list(self.length(b)[1])
            goal = lambda f, g: self.at_least(b, k, f, g)
        else:
            lb = self.length(b)
            li = alg.aslin(i)
            terms = [*lb[1], *li[1]]

            def goal(f, g):
                return self.holds(1, [(1, lb), (-1, li)], f) and self.holds(0, [(1, lb), (1, li)], f)
        ok, case, facts = self.decide(guard, goal, terms)
        if ok:
            return 'ok', 'inside of the sequence'
        if not (i.op == 'const') and any(x.op == 'eq0' and not alg.aslin(alg.linadd(x.args[0], alg.linadd(i, alg.lin(*lb), -1), s))[1]
                                         for v in alg.bdd.support(case) for x in [alg.atoms[v]] for s in (1, -1)):
            return 'unknown', 'the position is compared with the length for equality'
        return self.unknown(event, case, [b, i], f'{show(b)[:120]}[{show(i)[:120]}] may be outside of the sequence', facts)

    def given(self, event, word):
        """the word given to function must not be empty"""
        guard = self.comparer.sat(event.guard)
        self.binders = event.binders
        if guard == 0:
            return 'ok', 'unreachable'
        ok, case, facts = self.decide(guard, lambda f, g: self.at_least(word, 1, f, g), list(self.length(word)[1]))
        if ok:
            return 'ok', 'not empty'
        return self.unknown(event, case, [word], f'{show(word)[:120]} may be empty', facts)

    def key(self, event, guard, b, i, ty):
        alg = self.alg
        if ty and ty[0] == 'defaultdict':
            return 'ok', 'missing keys are made'
        inside = alg.contains(i, b)
        if alg.AND(guard, alg.NOT(inside)) == 0 or self.comparer.implies(guard, inside):
            return 'ok', 'the key is there'
        if i.op == 'elem' and self.plain(i.args[0]) in (b, alg.meth(b, 'keys', (), ())):
            return 'ok', 'the key is there'
        if not ty:
            return 'unknown', f'kind of {show(b)[:80]} is not known'
        return self.unknown(event, guard, [b, i], f'{show(i)[:120]} may be missing in {show(b)[:120]}')

    # -- definiteness

    def unknown(self, event, guard, terms, detail, facts=None):
        """violation, if all said by the guard of the terms is understood"""
        alg = self.alg
        for t in terms:
            if not self.free(t):
                return 'unknown', detail
        about = set()
        for t in terms:
            about |= self.roots(t)
        for v, val in alg.bdd.forced(guard).items():
            a = alg.atoms[v]
            if self.literal(a, val, Facts()):
                continue
            if self.roots(a) & about:
                return 'unknown', detail + f' (unless {show(a)[:120]})'
        cube = alg.bdd.cube(guard)
        for v, val in cube.items():
            a = alg.atoms[v]
            if not self.literal(a, val, Facts()) and self.roots(a) & about:
                return 'unknown', detail + f' (unless {show(a)[:120]})'
        return 'bad', detail + ' when ' + self.comparer.describe(guard)[:400]

    def roots(self, t):
        """terms whose lengths and values are spoken of"""
        res = set()
        for x in subterms(self.alg, [t]):
            if x.op in ('sym', 'elem', 'mu', 'mupost', 'phi') and x.args[0] not in ('self', 'aff', 'dic', 'cls'):
                res.add(x)
        return res

    def free(self, t, depth=0):
        """value of the term may be any, or is understood"""
        alg = self.alg
        if depth > 10:
            return False
        f = lambda x: self.free(x, depth + 1)
        t = self.plain(t)
        if t.op in ('const', 'sym'):
            return True
        if t.op == 'lin':
            return all(f(x) for x, _ in t.args[1])
        if t.op in ('min', 'max', 'concat'):
            return all(f(x) for x in t.args)
        if t.op == 'slice':
            return all(f(x) for x in t.args)
        if t.op == 'elem':
            coll = self.plain(t.args[0])
            return coll.op == 'ext' and coll.args[0] == 'range' and all(f(x) for x in coll.args[1]) or \
                alg.isstr(coll) and f(coll) or \
                coll.op == 'attr' and coll.args[0].op == 'sym' and coll.args[1] == 'flags' and coll.args[0].args[0] != 'self'
        if t.op == 'ext':
            return t.args[0] in ('len', 'list', 'tuple', 'sorted', 'range', 'reversed', 'iter') and all(f(x) for x in t.args[1])
        if t.op == 'meth' and t.args[1] in ('find', 'rfind') and self.any_text(t.args[0]):
            return all(f(x) for x in t.args[2])
        if t.op == 'meth':
            return t.args[1] in KEEP | {'find', 'rfind', 'split', 'rsplit', 'strip', 'lstrip', 'rstrip'} and \
                f(t.args[0]) and all(f(x) for x in t.args[2])
        if t.op == 'index':
            return alg.isstr(t.args[0]) and f(t.args[0])
        if t.op in ('mu', 'mupost'):
            return alg.isnum(t) and bool(self.carried(t))
        if t.op == 'attr':
            ty = alg.strip_opt(alg.typeof(t))
            if t.args[1] in self.numbers or t.args[1] in self.empty:
                return True
            return t.args[0].op in ('attr', 'sym') and bool(ty) and ty[0] in ('list', 'dict', 'set', 'coll')
        if t.op in ('call', 'gen'):
            return t.args[0].qual in self.may_be_empty
        if t.op == 'seq':
            return all(i.kind == 'star' and f(i.term) or i.kind == 'one' for i in t.args[1])
        return False

    def any_text(self, t):
        if t.op == 'elem' and t.args[0].op in ('call', 'gen'):
            return t.args[0].args[0].qual in self.texts
        if t.op == 'call' and t.args[0].qual in self.texts:
            word = dict(t.args[1]).get('word')
            return word is not None and self.any_text(word)
        return False


def protected(event):
    """inside of try that catches the error"""
    f = event.func
    if f is None:
        return False
    for n in ast.walk(f.node):
        if isinstance(n, ast.Try) and any(x is event.node for s in n.body for x in ast.walk(s)):
            for h in n.handlers:
                names = {x.id if isinstance(x, ast.Name) else x.attr for x in ast.walk(h.type)
                         if isinstance(x, (ast.Name, ast.Attribute))} if h.type else {'Exception'}
                if names & {'IndexError', 'KeyError', 'LookupError', 'Exception', 'BaseException', 'StopIteration', 'ValueError'}:
                    return True
    return False

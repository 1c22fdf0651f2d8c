"""
Reduced ordered binary decision diagrams: canonical representation of the guards (path conditions)
over atomic predicates of the analysed program.
"""

import sys
sys.setrecursionlimit(20000)


class TooBig(Exception):
    """Guard can't be represented within limits"""


MAX_NODES = 3000000


class BDD:
    FALSE = 0
    TRUE = 1

    def __init__(self):
        self.nodes = [(1 << 60, 0, 0), (1 << 60, 1, 1)]    # (var, lo, hi)
        self.unique = {}
        self.ite_cache = {}
        self.supp_cache = {0: frozenset(), 1: frozenset()}
        self.con_cache = {}
        self.cof_cache = {}

    def mk(self, var, lo, hi):
        if lo == hi:
            return lo
        key = (var, lo, hi)
        n = self.unique.get(key)
        if n is None:
            n = len(self.nodes)
            if n > MAX_NODES:
                raise TooBig
            self.nodes.append(key)
            self.unique[key] = n
        return n

    def var(self, v):
        return self.mk(v, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        key = (f, g, h)
        r = self.ite_cache.get(key)
        if r is not None:
            return r
        nodes = self.nodes
        v = min(nodes[f][0], nodes[g][0], nodes[h][0])
        f0, f1 = self.cof(f, v)
        g0, g1 = self.cof(g, v)
        h0, h1 = self.cof(h, v)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.ite_cache[key] = r
        return r

    def cof(self, f, v):
        n = self.nodes[f]
        if n[0] == v:
            return n[1], n[2]
        return f, f

    def NOT(self, f):
        return self.ite(f, 0, 1)

    def AND(self, *fs):
        r = 1
        for f in fs:
            r = self.ite(r, f, 0)
            if r == 0:
                return 0
        return r

    def OR(self, *fs):
        r = 0
        for f in fs:
            r = self.ite(r, 1, f)
            if r == 1:
                return 1
        return r

    def restrict(self, f, v, val):
        """cofactor by variable"""
        if f < 2:
            return f
        if v not in self.support(f):
            return f
        var, lo, hi = self.nodes[f]
        if var == v:
            return hi if val else lo
        key = (f, v, val)
        r = self.cof_cache.get(key)
        if r is None:
            r = self.cof_cache[key] = self.ite(self.var(var), self.restrict(hi, v, val), self.restrict(lo, v, val))
        return r

    def support(self, f):
        r = self.supp_cache.get(f)
        if r is None:
            var, lo, hi = self.nodes[f]
            r = self.support(lo) | self.support(hi) | {var}
            self.supp_cache[f] = r
        return r

    def constrain(self, f, c):
        """generalised cofactor: some g with g & c == f & c, usually simpler than f"""
        if c == 0 or c == 1 or f < 2:
            return f
        if f == c:
            return 1
        key = (f, c)
        r = self.con_cache.get(key)
        if r is not None:
            return r
        v = min(self.nodes[f][0], self.nodes[c][0])
        f0, f1 = self.cof(f, v)
        c0, c1 = self.cof(c, v)
        if c0 == 0:
            r = self.constrain(f1, c1)
        elif c1 == 0:
            r = self.constrain(f0, c0)
        elif v not in self.support(f):
            r = self.constrain(f, self.OR(c0, c1))
        else:
            r = self.ite(self.var(v), self.constrain(f1, c1), self.constrain(f0, c0))
        self.con_cache[key] = r
        return r

    def cube(self, f):
        """some satisfying assignment, as dict var -> bool (shortest path found)"""
        if f == 0:
            return None
        best = {}

        def walk(n):
            if n == 1:
                return ()
            if n == 0:
                return None
            if n in best:
                return best[n]
            var, lo, hi = self.nodes[n]
            a = walk(lo)
            b = walk(hi)
            if a is None:
                r = ((var, True),) + b
            elif b is None or len(a) <= len(b):
                r = ((var, False),) + a
            else:
                r = ((var, True),) + b
            best[n] = r
            return r
        return dict(walk(f))

    def forced(self, f):
        """literals implied by f: dict var -> bool"""
        res = {}
        for v in self.support(f):
            if self.restrict(f, v, True) == 0:
                res[v] = False
            elif self.restrict(f, v, False) == 0:
                res[v] = True
        return res

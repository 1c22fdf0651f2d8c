"""
Guarded value-flow analysis.

A function is summarised as set of guarded events: what it yields or returns, which objects it
changes, which boundary functions it calls -- each under a condition (decision diagram over
uninterpreted predicates). Branches are joined, not enumerated; helpers are inlined by resolved callee;
loops are summarised with a bound element of the iterated collection, loop-carried variables -- with
a recurrence term.
"""

import ast
import itertools

from .alg import Alg, Item, Term, B
from .front import AnalysisError, ClassInfo, EnumInfo, FuncInfo, dotted


class Unsupported(Exception):
    """Construct the analysis has no rule for: the obligation becomes undecided"""


HEAP = ('heapq.heappush', 'heapq.heappushpop', 'heapq.heapify', 'bisect.insort')

BUILTIN_NAMES = {
    'any', 'all', 'sum', 'len', 'min', 'max', 'abs', 'bool', 'str', 'int', 'float', 'list', 'set', 'frozenset', 'tuple',
    'dict', 'sorted', 'reversed', 'enumerate', 'zip', 'range', 'filter', 'map', 'next', 'iter', 'isinstance', 'hasattr',
    'getattr', 'super', 'print', 'repr', 'open', 'ord', 'chr', 'hash', 'id', 'type', 'round', 'divmod', 'callable',
    'ValueError', 'KeyError', 'IndexError', 'LookupError', 'NotImplementedError', 'StopIteration', 'Exception',
    'TypeError', 'eval', 'exec', 'compile', 'vars', 'globals', 'locals', 'setattr', 'object', 'slice', 'bytes',
    'property', 'staticmethod', 'classmethod', 'input', '__import__', 'delattr', 'format', 'issubclass', 'pow',
    'RuntimeError', 'AttributeError', 'UnicodeDecodeError', 'UnicodeError', 'OSError', 'FileNotFoundError',
}

MUTATORS = {'append', 'add', 'extend', 'update', 'insert', 'pop', 'remove', 'clear', 'setdefault', 'sort', 'reverse',
            'discard', 'popitem', 'appendleft', 'extendleft', 'popleft', 'intersection_update', 'difference_update',
            'symmetric_difference_update', 'rotate'}

MAX_ALTS = 160
MAX_STEPS = 400000
UNROLL = 8


class State:
    __slots__ = ('frames', 'pc', 'heap', 'base')

    def __init__(self, frames, pc, heap, base):
        self.frames = frames
        self.pc = pc
        self.heap = heap
        self.base = base

    def copy(self, pc=None):
        return State(self.frames, self.pc if pc is None else pc, self.heap, self.base)

    def set_from(self, o):
        self.frames, self.pc, self.heap, self.base = o.frames, o.pc, o.heap, o.base


EMPTY = State({}, 1, {}, 1)


class Exit:
    __slots__ = ('guard', 'binders', 'term', 'st', 'node', 'ctx')

    def __init__(self, guard, term, st, node=None, ctx=None):
        self.guard = guard
        self.binders = ()
        self.term = term
        self.st = st
        self.node = node
        self.ctx = ctx


class Event:
    """Observable effect: kind, guard (full), bound elements (innermost first), term and place in source"""
    __slots__ = ('kind', 'guard', 'binders', 'term', 'where', 'node', 'func', 'extra')

    def __init__(self, kind, guard, term, where, node=None, func=None, extra=None):
        self.kind = kind
        self.guard = guard
        self.binders = ()
        self.term = term
        self.where = where
        self.node = node
        self.func = func
        self.extra = extra

    def __repr__(self):
        return f'{self.kind} {self.term} @{self.where}'


class FunCtx:
    def __init__(self, func, fid, on_yield):
        self.func = func
        self.fid = fid
        self.on_yield = on_yield
        self.returns = []


class LoopCtx:
    def __init__(self):
        self.breaks = []
        self.continues = []


class Closure:
    def __init__(self, func, fid):
        self.func = func
        self.fid = fid


class Engine:
    def __init__(self, prog, alg=None, opaque=(), inline_virtual=False):
        self.prog = prog
        self.alg = alg or Alg(prog)
        self.opaque = set(opaque)
        self.inline_virtual = inline_virtual
        self.events = []
        self.sorts = []             # sorted sequences made
        self.closures = {}
        self.closure_ids = {}
        self.nested = {}
        self.next_fid = 0
        self.stack = []             # FunCtx
        self.lists = []             # active outcome lists
        self.active_loops = []
        self.steps = 0
        self.loop_cache = {}
        self.top = None             # analysed function
        self.generalise = {}        # function -> {param: term}
        self.contracts = {}         # function -> reference that callers see instead of it
        self.watch = set()          # kinds of events to collect: 'call', 'index', 'effect'
        self.inlined = set()        # functions analysed
        self.nodes_seen = set()
        self.record = True
        self.raises = []
        self.history = False        # sets made by the function are known by the changes of them only
        self.hist_ids = {}
        self.callback_type = None   # type of the parameter of functions passed to boundary functions

    # ------------------------------------------------------------------ helpers

    def new_fid(self):
        self.next_fid += 1
        return self.next_fid

    def get(self, st, fid, name):
        f = st.frames.get(fid)
        return f.get(name) if f else None

    def set(self, st, fid, name, val):
        fr = dict(st.frames)
        f = dict(fr.get(fid, ()))
        f[name] = val
        fr[fid] = f
        st.frames = fr

    def full(self, st):
        return self.alg.AND(st.base, st.pc)

    def alts(self, t):
        """(guard, term) alternatives"""
        if t.op == 'v':
            return [(b.n, x) for b, x in t.args[0]]
        return [(1, t)]

    def lift(self, st, f, *ts):
        """applies f to all the combinations of alternatives"""
        if all(t.op != 'v' for t in ts):
            return f(*ts)
        alg = self.alg
        full = self.full(st) if st is not None else 1
        combos = [(1, ())]
        for t in ts:
            new = []
            for g, xs in combos:
                for g2, x in self.alts(t):
                    gg = alg.AND(g, g2)
                    if gg and alg.AND(gg, full):
                        new.append((gg, xs + (x,)))
            combos = new
            if len(combos) > MAX_ALTS:
                raise Unsupported('too many alternatives')
        if not combos:
            return alg.fresh('unk', 'infeasible')
        return alg.vterm([(g, f(*xs)) for g, xs in combos])

    def lift_list(self, st, f, ts):
        return self.lift(st, lambda *xs: f(list(xs)), *ts)

    def prune(self, st, t):
        """value as seen under current path condition"""
        if t.op != 'v':
            return t
        alg = self.alg
        full = self.full(st)
        res = []
        for b, x in t.args[0]:
            n = alg.bdd.constrain(b.n, full) if full else b.n
            if alg.AND(n, full):
                res.append((n, x))
        if not res:
            return t
        if len(res) == 1:
            return res[0][1]
        return alg.vterm(res)

    def lift_bool(self, st, f, *ts):
        """f returns guard"""
        if all(t.op != 'v' for t in ts):
            return f(*ts)
        alg = self.alg
        full = self.full(st) if st is not None else 1
        combos = [(1, ())]
        for t in ts:
            new = []
            for g, xs in combos:
                for g2, x in self.alts(t):
                    gg = alg.AND(g, g2)
                    if gg and alg.AND(gg, full):
                        new.append((gg, xs + (x,)))
            combos = new
            if len(combos) > MAX_ALTS:
                raise Unsupported('too many alternatives')
        return alg.OR(*[alg.AND(g, f(*xs)) for g, xs in combos])

    def where(self, node):
        ctx = self.stack[-1] if self.stack else None
        if ctx is None:
            return '?'
        return f'{ctx.func.path}:{getattr(node, "lineno", 0)}'

    def emit(self, kind, st, term, node, extra=None):
        if not self.record:
            return
        g = self.full(st)
        if g == 0:
            return
        self.events.append(Event(kind, g, term, self.where(node), node, self.stack[-1].func if self.stack else None,
                                 extra))

    # ------------------------------------------------------------------ merging

    def merge(self, pairs):
        """[(guard, state)] -> state with pc = OR of guards"""
        alg = self.alg
        pairs = [(g, s) for g, s in pairs if g]
        if not pairs:
            return None
        if len(pairs) == 1:
            g, s = pairs[0]
            return State(s.frames, g, s.heap, s.base)
        total = alg.OR(*[g for g, _ in pairs])
        first = pairs[0][1]
        frames = first.frames
        heap = first.heap
        if any(s.frames is not frames for _, s in pairs):
            fids = set()
            for _, s in pairs:
                fids |= set(s.frames)
            new = {}
            for fid in fids:
                fs = [s.frames.get(fid) for _, s in pairs]
                f0 = fs[0]
                if all(f is f0 for f in fs):
                    new[fid] = f0
                    continue
                if any(f is None for f in fs):
                    new[fid] = next(f for f in fs if f is not None)
                    have = [(p, f) for p, f in zip(pairs, fs) if f is not None]
                else:
                    have = list(zip(pairs, fs))
                if len(have) == 1:
                    new[fid] = have[0][1]
                    continue
                names = set()
                for _, f in have:
                    names |= set(f)
                res = {}
                for n in names:
                    vals = [((g, s), f.get(n)) for (g, s), f in have]
                    v0 = vals[0][1]
                    if all(v is v0 for _, v in vals):
                        res[n] = v0
                        continue
                    if n.startswith('__'):
                        res[n] = v0 if v0 is not None else next(v for _, v in vals if v is not None)
                        if n == '__mut':
                            m = frozenset()
                            for _, v in vals:
                                m |= v or frozenset()
                            res[n] = m
                        continue
                    res[n] = self.merge_vals([(g, v) for (g, s), v in vals], total)
                new[fid] = res
            frames = new
        if any(s.heap is not heap for _, s in pairs):
            keys = set()
            for _, s in pairs:
                keys |= set(s.heap)
            new = {}
            for k in keys:
                vals = [(g, s.heap.get(k)) for g, s in pairs]
                v0 = vals[0][1]
                if all(v is v0 for _, v in vals):
                    new[k] = v0
                    continue
                obj, name = k
                new[k] = self.merge_vals([(g, v if v is not None else alg.attr(obj, name)) for g, v in vals], total)
            heap = new
        return State(frames, total, heap, first.base)

    def merge_vals(self, vals, total):
        alg = self.alg
        res = []
        used = 0
        for g, v in vals:
            if v is None:
                v = alg.mk('unbound')
            if alg.AND(g, used):
                # the alternatives are not exclusive (several exits from a loop): earlier kept only if the same
                over = [t for g2, t in res if alg.AND(g, g2) and t is not v]
                if over:
                    return alg.fresh('unk', 'overlap')
            used = alg.OR(used, g)
            n = alg.bdd.constrain(g, total)
            for b, x in self.alts(v):
                nn = alg.bdd.constrain(alg.AND(b, n), total)
                if alg.AND(nn, total):
                    res.append((nn, x))
        if len(res) > MAX_ALTS:
            return alg.fresh('unk', 'alternatives')
        if not res:
            return alg.mk('unbound')
        # unbound on the paths that never read it
        if len({t for _, t in res}) > 1:
            bound = [(n, t) for n, t in res if t.op != 'unbound']
            if len(bound) < len(res) and len({t for _, t in bound}) == 1:
                return bound[0][1]
        return alg.vterm(res)

    # ------------------------------------------------------------------ running

    def run(self, func, args, on_yield=None, st=None):
        """
        Analyses function with given arguments (name -> Term; missing ones get default or symbolic value).
        Returns final state and return value; events are in self.events.
        """
        alg = self.alg
        if st is None:
            st = State({}, 1, {}, 1)
        fid = self.new_fid()
        self.set(st, fid, '__parent', None)
        ctx = FunCtx(func, fid, on_yield or self.top_yield)
        pos, kwonly, var, kw = func.params
        for p in pos + kwonly + ([var] if var else []) + ([kw] if kw else []):
            if p in args:
                self.set(st, fid, p, args[p])
            else:
                self.set(st, fid, p, alg.sym(p, self.param_type(func, p)))
        return self.run_body(ctx, st)

    def param_type(self, func, p):
        if p == 'self' and func.cls:
            return ('cls', func.cls)
        if p == func.params[2]:
            a = func.node.args.vararg.annotation
            return ('list', self.prog.type_of_annotation(func.module, a) if a else None)
        a = func.annotation(p)
        if a is None and 'index' in self.watch and not func.is_lambda:
            return self.prog.param_type_from_calls(func, p)
        return self.prog.type_of_annotation(func.module, a)

    def top_yield(self, term, st, node):
        for g, t in self.alts(self.prune(st, term)):
            st2 = st.copy(self.alg.AND(st.pc, g))
            self.emit('yield', st2, t, node)
        return st

    def run_body(self, ctx, st):
        """-> (state after, return term)"""
        alg = self.alg
        func = ctx.func
        self.inlined.add(func.qual)
        if len(self.stack) > 40:
            raise Unsupported('inlining too deep')
        self.stack = self.stack + [ctx]
        self.lists = self.lists + [ctx.returns]
        mark = len(self.lists)
        try:
            if func.is_lambda:
                val = self.eval(func.node.body, st)
                return st, val
            st = self.block(func.node.body, st)
        finally:
            self.stack = self.stack[:-1]
            self.drop_list(ctx.returns)
        return self.finish(ctx, st)

    def drop_list(self, l):
        self.lists = [x for x in self.lists if x is not l]

    def finish(self, ctx, st):
        alg = self.alg
        pairs = []
        vals = []
        left = 0        # already, not from inside of a loop
        if st.pc:
            pairs.append((st.pc, st))
            vals.append((st.pc, alg.none))
        for e in ctx.returns:
            if e.term is None or not self.has_closure(e.term):
                # locals are not needed anymore
                e.st = e.st.copy()
                e.st.frames = {k: f for k, f in e.st.frames.items() if k < ctx.fid}
            g, term, s = self.close_exit(e)
            g = alg.AND(g, alg.NOT(left))
            if not e.binders:
                left = alg.OR(left, g)
            if g:
                pairs.append((g, s))
                vals.append((g, term))
        if not pairs:
            st = st.copy(0)
            return st, alg.none
        base = pairs[0][1].base
        total = alg.OR(*[g for g, _ in pairs])
        merged = self.merge(self.exclusive(pairs))
        val = self.merge_vals(vals, total)
        return merged, val

    def exclusive(self, pairs):
        """makes guards exclusive (first wins) -- only for merging of states"""
        alg = self.alg
        res = []
        used = 0
        for g, s in pairs:
            n = alg.AND(g, alg.NOT(used))
            if n:
                res.append((n, s))
            used = alg.OR(used, g)
        return res

    def close_exit(self, e):
        """exit happened in the loops: -> guard, value and state with loop elements closed"""
        alg = self.alg
        g, term, s = e.guard, e.term, e.st
        for x in e.binders:
            if term is not None and x in term.fv or self.state_mentions(s, x):
                y = alg.first(x, g)
                if term is not None:
                    term = alg.subst(term, {x: y})
                s = self.subst_state(s, {x: y})
            g = alg.exists(x, g)
        return g, term, s

    def has_closure(self, t, depth=0):
        if t.op in ('closure', 'gen', 'bound', 'partial', 'seq', 'map', 'new'):
            return True
        return any(isinstance(a, Term) and depth < 6 and self.has_closure(a, depth + 1) for a in t.args) or \
            t.op == 'v' and any(self.has_closure(a, depth + 1) for _, a in t.args[0])

    def state_mentions(self, s, x):
        for f in s.frames.values():
            for n, v in f.items():
                if isinstance(v, Term) and x in v.fv:
                    return True
        for v in s.heap.values():
            if x in v.fv:
                return True
        return False

    def subst_state(self, s, m):
        frames = {}
        for fid, f in s.frames.items():
            if any(isinstance(v, Term) and any(k in v.fv for k in m) for v in f.values()):
                f = {n: self.alg.subst(v, m) if isinstance(v, Term) else v for n, v in f.items()}
            frames[fid] = f
        heap = {k: self.alg.subst(v, m) for k, v in s.heap.items()}
        return State(frames, s.pc, heap, s.base)

    # ------------------------------------------------------------------ statements

    def block(self, stmts, st):
        for s in stmts:
            if st.pc == 0:
                return st
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Unsupported('analysis budget exceeded')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__} at {self.where(s)}')
        return m(s, st)

    def s_Pass(self, s, st):
        return st

    def s_Global(self, s, st):
        raise Unsupported('global statement')

    def s_Nonlocal(self, s, st):
        ctx = self.stack[-1]
        names = self.get(st, ctx.fid, '__nonlocal') or frozenset()
        self.set(st, ctx.fid, '__nonlocal', names | frozenset(s.names))
        return st

    def s_Import(self, s, st):
        return st

    def s_ImportFrom(self, s, st):
        return st

    def s_Expr(self, s, st):
        self.eval(s.value, st)
        return st

    def s_Assert(self, s, st):
        # failed assert raises
        st.pc = self.alg.AND(st.pc, self.cond(s.test, st))
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.eval(t.value, st)
                self.effect(st, t.value, base, 'delitem', [self.eval(t.slice, st)], s)
        return st

    def s_FunctionDef(self, s, st):
        ctx = self.stack[-1]
        f = self.nested_func(s, ctx.func)
        self.set(st, ctx.fid, s.name, self.closure(f, ctx.fid))
        return st

    def s_ClassDef(self, s, st):
        raise Unsupported('local class')

    def nested_func(self, node, outer):
        f = self.nested.get(node)
        if f is None:
            name = getattr(node, 'name', '<lambda>')
            f = FuncInfo(name, f'{outer.qual}.{name}', node, outer.module, cls=None, outer=outer)
            f.home_cls = getattr(outer, 'home_cls', outer.cls)
            self.nested[node] = f
        return f

    def closure(self, f, fid):
        key = (f.node, fid)
        cid = self.closure_ids.get(key)
        if cid is None:
            cid = self.alg.closure_count = self.alg.closure_count + 1
            self.closures[cid] = Closure(f, fid)
            self.closure_ids[key] = cid
        return self.alg.mk('closure', cid)

    def s_Return(self, s, st):
        ctx = self.stack[-1]
        val = self.eval(s.value, st) if s.value else self.alg.none
        if st.pc:
            ctx.returns.append(Exit(st.pc, val, st.copy(), s, ctx))
        st.pc = 0
        return st

    def s_Raise(self, s, st):
        if s.exc:
            pass
        if st.pc:
            self.emit('raise', st, self.alg.none, s)
            self.raises.append(Exit(self.full(st), None, st.copy(), s))
        st.pc = 0
        return st

    def s_Break(self, s, st):
        ctx = self.loopctx()
        if st.pc:
            ctx.breaks.append(Exit(st.pc, None, st.copy(), s))
        st.pc = 0
        return st

    def s_Continue(self, s, st):
        ctx = self.loopctx()
        if st.pc:
            ctx.continues.append(Exit(st.pc, None, st.copy(), s))
        st.pc = 0
        return st

    def loopctx(self):
        return self.loops_of[-1]

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        alg = self.alg
        a = alg.AND(st.pc, c)
        b = alg.AND(st.pc, alg.NOT(c))
        if b == 0 or alg.AND(st.base, b) == 0:
            st.pc = a
            return self.block(s.body, st)
        if a == 0 or alg.AND(st.base, a) == 0:
            st.pc = b
            return self.block(s.orelse, st)
        s1 = self.block(s.body, st.copy(a))
        s2 = self.block(s.orelse, st.copy(b))
        res = self.merge([(s1.pc, s1), (s2.pc, s2)])
        if res is None:
            st.pc = 0
            return st
        return res

    def s_Assign(self, s, st):
        val = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, val, st)
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            place = self.place_in_dict(s.value, st)
            if place is not None:
                fid = self.owner_fid(st, s.targets[0].id)
                alias = dict(self.get(st, fid, '__alias') or ())
                alias[s.targets[0].id] = place
                self.set(st, fid, '__alias', tuple(alias.items()))
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            val = self.eval(s.value, st)
            self.assign(s.target, val, st)
        return st

    def s_AugAssign(self, s, st):
        alg = self.alg
        cur = self.eval_target(s.target, st)
        val = self.eval(s.value, st)
        # in place for lists and sets
        ty = alg.typeof(cur) if cur.op != 'v' else alg.typeof(self.alts(cur)[0][1])
        if ty and ty[0] in ('list', 'set', 'coll', 'dict'):
            new = self.binop(s.op, cur, val, st)
            self.mutate_cell(st, s.target, cur, new, 'iadd', [val], s)
            return st
        self.assign(s.target, self.binop(s.op, cur, val, st), st)
        return st

    def eval_target(self, t, st):
        return self.eval(t, st)

    def owner_fid(self, st, name):
        """frame where name lives for the current function"""
        ctx = self.stack[-1]
        fid = ctx.fid
        nl = self.get(st, fid, '__nonlocal')
        if nl and name in nl:
            p = self.get(st, fid, '__parent')
            while p is not None:
                f = st.frames.get(p)
                if f is not None and name in f:
                    return p
                p = self.get(st, p, '__parent')
        return fid

    def find_fid(self, st, name):
        fid = self.stack[-1].fid
        while fid is not None:
            f = st.frames.get(fid)
            if f is None:
                return None
            if name in f:
                return fid
            fid = f.get('__parent')
        return None

    def assign(self, t, val, st):
        alg = self.alg
        if isinstance(t, ast.Name):
            fid = self.owner_fid(st, t.id)
            self.set(st, fid, t.id, val)
            mut = self.get(st, fid, '__mut')
            if mut and t.id in mut:
                self.set(st, fid, '__mut', mut - {t.id})
            alias = self.get(st, fid, '__alias')
            if alias and any(n == t.id for n, _ in alias):
                self.set(st, fid, '__alias', tuple(a for a in alias if a[0] != t.id))
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, val, st)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, st)
            self.emit('effect', st, alg.mk('set', obj, t.attr, val), t, extra=('setattr', obj, t.attr, [val]))
            if obj.op != 'v':
                st.heap = {**st.heap, (obj, t.attr): val}
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            idx = self.eval(t.slice, st)
            if 'index' in self.watch and not self.is_dict(base):
                self.taken(base, idx, st, t)
            self.effect(st, t.value, base, 'setitem', [idx, val], t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, val, st)
        else:
            raise Unsupported('assignment target')

    def unpack(self, elts, val, st):
        alg = self.alg
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if not star:
            for i, e in enumerate(elts):
                self.assign(e, self.lift(st, lambda v, i=i: self.component(v, i, n), val), st)
            return
        k = star[0]
        after = n - k - 1
        for i, e in enumerate(elts):
            if i < k:
                self.assign(e, self.lift(st, lambda v, i=i: alg.index(v, alg.const(i)), val), st)
            elif i == k:
                hi = alg.const(-after) if after else alg.none
                self.assign(e.value, self.lift(st, lambda v: self.slice_of(v, alg.const(k), hi), val), st)
            else:
                self.assign(e, self.lift(st, lambda v, i=i: alg.index(v, alg.const(i - n)), val), st)

    def slice_of(self, v, lo, hi):
        return self.alg.slice(v, lo, hi, self.alg.none)

    def component(self, v, i, n):
        return self.alg.index(v, self.alg.const(i))

    def s_With(self, s, st):
        for item in s.items:
            v = self.eval(item.context_expr, st)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, st)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        raise Unsupported('try statement')

    # ------------------------------------------------------------------ loops

    loops_of = None

    def s_For(self, s, st):
        it = self.eval(s.iter, st)
        ctx = LoopCtx()
        if self.loops_of is None:
            self.loops_of = []
        self.lists = self.lists + [ctx.breaks]

        def body(x, st, node=None):
            saved = self.loops_of
            self.loops_of = saved + [ctx]
            saved_stack = None
            try:
                self.assign(s.target, x, st)
                mark = len(ctx.continues)
                st = self.block(s.body, st)
                conts = ctx.continues[mark:]
                del ctx.continues[mark:]
            finally:
                self.loops_of = saved
            if conts:
                pairs = [(st.pc, st)] + [(e.guard, e.st) for e in conts]
                res = self.merge(self.exclusive(pairs))
                return res if res is not None else st
            return st

        home = len(self.stack)

        def cb(x, st, node=None):
            # the body is executed in its own function, even when called from inside of a generator
            saved = self.stack
            self.stack = saved[:home]
            try:
                return body(x, st, node)
            finally:
                self.stack = saved
        st = self.iterate(it, st, cb, s)
        self.drop_list(ctx.breaks)
        if s.orelse:
            st = self.block(s.orelse, st)
        return self.with_breaks(st, ctx)

    def with_breaks(self, st, ctx):
        if not ctx.breaks:
            return st
        pairs = [(st.pc, st)]
        for e in ctx.breaks:
            g, _, s = self.close_exit(e)
            pairs.append((g, s))
        res = self.merge(self.exclusive(pairs))
        if res is None:
            st.pc = 0
            return st
        return res

    def s_While(self, s, st):
        alg = self.alg
        ctx = LoopCtx()
        if self.loops_of is None:
            self.loops_of = []
        self.lists = self.lists + [ctx.breaks]

        def cb(x, st, node=None):
            saved = self.loops_of
            self.loops_of = saved + [ctx]
            try:
                c = self.cond(s.test, st)
                skip = st.copy(alg.AND(st.pc, alg.NOT(c)))
                st = st.copy(alg.AND(st.pc, c))
                mark = len(ctx.continues)
                st = self.block(s.body, st)
                conts = ctx.continues[mark:]
                del ctx.continues[mark:]
            finally:
                self.loops_of = saved
            pairs = [(st.pc, st)] + [(e.guard, e.st) for e in conts]
            res = self.merge(self.exclusive(pairs))
            return res if res is not None else st
        it = alg.mk('while', self.while_key(s))
        st = self.symbolic_loop(it, st, cb, s, is_while=True)
        self.drop_list(ctx.breaks)
        if s.orelse:
            st = self.block(s.orelse, st)
        return self.with_breaks(st, ctx)

    def while_key(self, s):
        return 'w%d' % len([1 for x in self.active_loops if x.op == 'while'])

    def iterate(self, it, st, cb, node):
        """runs callback for all elements of value"""
        alg = self.alg
        it = self.prune(st, it)
        if it.op == 'v':
            pairs = []
            for g, t in self.alts(it):
                s1 = st.copy(alg.AND(st.pc, g))
                if s1.pc == 0:
                    continue
                s1 = self.iterate(t, s1, cb, node)
                pairs.append((s1.pc, s1))
            res = self.merge(pairs)
            return res if res is not None else st.copy(0)
        op = it.op
        if op == 'seq':
            for item in it.args[1]:
                st = self.iterate_item(item, st, cb, node)
                if st.pc == 0:
                    break
            return st
        if op == 'map':
            for item in it.args[0]:
                if item.kind in ('pair', 'multi', 'nested'):
                    st = self.iterate_item(Item(item.guard, item.binders, 'one', item.term.args[0]), st, cb, node)
                else:
                    st = self.iterate_item(Item(item.guard, item.binders, 'star', item.term), st, cb, node)
            return st
        if op == 'gen':
            return self.iterate_gen(it, st, cb, node)
        if op == 'const':
            if isinstance(it.args[1], str) and len(it.args[1]) <= 64:
                for ch in it.args[1]:
                    st = cb(alg.const(ch), st, node)
                return st
            if it.args[1] is None:
                return st.copy(0)
        if op == 'ext':
            name, args, kw = it.args
            if name in ('list', 'tuple', 'set', 'iter', 'sorted', 'reversed', 'frozenset') and args:
                inner = args[0]
                if inner.op in ('seq', 'gen', 'v', 'map', 'ext') or inner.op == 'const':
                    if name == 'reversed' and inner.op == 'ext' and inner.args[0] == 'range':
                        return self.iterate(inner, st, cb, node)
                    return self.iterate(inner, st, cb, node)
                return self.iterate(inner, st, cb, node)
            if name == 'enumerate':
                return self.iterate_enum(it, st, cb, node)
            if name == 'zip':
                return self.iterate_zip(it, st, cb, node)
            if name == 'range':
                vals = [a.args[1] for a in args if a.op == 'const']
                if len(vals) == len(args):
                    r = range(*vals)
                    if len(r) <= UNROLL:
                        for i in r:
                            st = cb(alg.const(i), st, node)
                            if st.pc == 0:
                                break
                        return st
                if len(args) == 2 and all(alg.isnum(a) for a in args):
                    lo, hi = args
                    return self.symbolic_loop(alg.ext('range', [alg.linadd(hi, lo, -1)], ()), st,
                                              lambda x, s, node=node: cb(alg.linadd(x, lo), s, node), node)
            if name == 'filter' and len(args) == 2:
                f, coll = args

                def fcb(x, s, node=node):
                    if f is alg.none:
                        c = self.truth(x, s)
                    else:
                        c = self.truth(self.call_value(f, [x], [], s, node), s)
                    s1 = s.copy(alg.AND(s.pc, c))
                    s0 = s.copy(alg.AND(s.pc, alg.NOT(c)))
                    if s1.pc:
                        s1 = cb(x, s1, node)
                    res = self.merge([(s1.pc, s1), (s0.pc, s0)])
                    return res if res is not None else s.copy(0)
                return self.iterate(coll, st, fcb, node)
            if name == 'map' and len(args) == 2:
                f, coll = args
                return self.iterate(coll, st,
                                    lambda x, s, node=node: cb(self.call_value(f, [x], [], s, node), s, node), node)
            if name == 'itertools.chain':
                for a in args:
                    st = self.iterate(a, st, cb, node)
                    if st.pc == 0:
                        break
                return st
            if name == 'itertools.chain.from_iterable' and len(args) == 1:
                return self.iterate(args[0], st, lambda x, s, node=node: self.iterate(x, s, cb, node), node)
            if name == 'dict.fromkeys' and args:
                return self.iterate(args[0], st, cb, node)
        if op == 'meth':
            recv, name, args, kw = it.args
            if name == 'items' and not args:
                return self.iterate(recv, st, lambda k, s, node=node: cb(
                    alg.seq('tuple', [Item(alg.B(1), (), 'one', k), Item(alg.B(1), (), 'one', alg.index(recv, k))]),
                    s, node), node)
            if name == 'keys' and not args:
                return self.iterate(recv, st, cb, node)
            if name == 'values' and not args:
                return self.iterate(recv, st, lambda k, s, node=node: cb(alg.index(recv, k), s, node), node)
        return self.symbolic_loop(it, st, cb, node)

    def iterate_item(self, item, st, cb, node):
        alg = self.alg
        if item.binders:
            # nested loops, outermost is the last
            def nest(k, m, s):
                if k < 0:
                    g = alg.subst_n(item.guard.n, m)
                    t = alg.subst(item.term, m)
                    return self.iterate_item(Item(alg.B(g), (), item.kind, t), s, cb, node)
                b = item.binders[k]
                it = alg.subst(b.args[0], m)
                return self.symbolic_loop(it, s, lambda x, s2, node=node: nest(k - 1, {**m, b: x}, s2), node)
            return nest(len(item.binders) - 1, {}, st)
        g = item.guard.n
        s1 = st.copy(alg.AND(st.pc, g))
        s0 = st.copy(alg.AND(st.pc, alg.NOT(g)))
        if s1.pc:
            if item.kind == 'one':
                s1 = cb(item.term, s1, node)
            else:
                s1 = self.iterate(item.term, s1, cb, node)
        res = self.merge([(s1.pc, s1), (s0.pc, s0)])
        return res if res is not None else st.copy(0)

    def seq_plain(self, t):
        return t.op == 'seq' and all(i.kind == 'one' and i.guard.n == 1 and not i.binders for i in t.args[1])

    def pair(self, *xs):
        return self.alg.seq('tuple', [Item(self.alg.B(1), (), 'one', x) for x in xs])

    def range_len(self, t):
        """number of elements, as used for positions in t"""
        alg = self.alg
        if t.op == 'slice' and t.args[3] is alg.none:
            base, lo, hi, _ = t.args
            if lo is alg.none and hi.op == 'const' and isinstance(hi.args[1], int) and hi.args[1] < 0:
                return alg.linadd(self.range_len(base), hi)
            if hi is alg.none and lo.op == 'const' and isinstance(lo.args[1], int) and lo.args[1] > 0:
                return alg.linadd(self.range_len(base), lo, -1)
        return alg.ext('len', [t], ())

    def at_pos(self, t, i):
        """t[i] for i in valid positions"""
        alg = self.alg
        if t.op == 'slice' and t.args[3] is alg.none:
            base, lo, hi, _ = t.args
            if lo is alg.none:
                return self.at_pos(base, i)
            if lo.op == 'const' and isinstance(lo.args[1], int) and lo.args[1] > 0:
                return self.at_pos(base, alg.linadd(i, lo))
        return alg.index(t, i)

    def iterate_enum(self, it, st, cb, node):
        alg = self.alg
        args = it.args[1]
        coll = self.prune(st, args[0])
        start = args[1] if len(args) > 1 else dict(it.args[2]).get('start', alg.const(0))
        if coll.op == 'v':
            pairs = []
            for g, t in self.alts(coll):
                s1 = st.copy(alg.AND(st.pc, g))
                if s1.pc:
                    s1 = self.iterate_enum(alg.mk('ext', 'enumerate', (t,) + args[1:], it.args[2]), s1, cb, node)
                    pairs.append((s1.pc, s1))
            return self.merge(pairs) or st.copy(0)
        while coll.op == 'ext' and coll.args[0] in ('list', 'tuple', 'iter') and coll.args[1]:
            coll = coll.args[1][0]
        if coll.op == 'const' and isinstance(coll.args[1], str) and len(coll.args[1]) <= 64:
            for i, ch in enumerate(coll.args[1]):
                st = cb(self.pair(alg.linadd(start, alg.const(i)), alg.const(ch)), st, node)
            return st
        if self.seq_plain(coll):
            for i, item in enumerate(coll.args[1]):
                st = cb(self.pair(alg.linadd(start, alg.const(i)), item.term), st, node)
            return st
        if coll.op in ('seq', 'gen') or coll.op == 'ext' and coll.args[0] in ('zip', 'enumerate', 'filter', 'map',
                                                                              'reversed', 'sorted'):
            # position is not expressible through the element
            if coll.op == 'ext' and coll.args[0] == 'zip':
                return self.iterate_zip(coll, st, cb, node, start=start)
            counter = alg.mk('posof', coll)
            counter._typed, counter._typ = True, ('int',)

            def ecb(x, s, node=node):
                c = alg.mk('position', counter, x if x.op != 'v' else alg.mk('unk', 'v'))
                c._typed, c._typ = True, ('int',)
                return cb(self.pair(alg.linadd(start, c), x), s, node)
            return self.iterate(coll, st, ecb, node)
        n = self.range_len(coll)
        return self.symbolic_loop(alg.ext('range', [n], ()), st,
                                  lambda i, s, node=node: cb(self.pair(alg.linadd(start, i), self.at_pos(coll, i)),
                                                             s, node), node)

    def iterate_zip(self, it, st, cb, node, start=None):
        alg = self.alg
        colls = []
        for c in it.args[1]:
            while c.op == 'ext' and c.args[0] in ('list', 'tuple', 'iter') and c.args[1]:
                c = c.args[1][0]
            colls.append(self.prune(st, c))
        if any(c.op in ('v', 'gen') for c in colls):
            raise Unsupported('zip of generators')

        def out(i, x):
            return x if start is None else self.pair(alg.linadd(start, i), x)
        if all(self.seq_plain(c) for c in colls):
            for i, xs in enumerate(zip(*[c.args[1] for c in colls])):
                st = cb(out(alg.const(i), self.pair(*[x.term for x in xs])), st, node)
            return st
        if any(c.op == 'seq' for c in colls):
            raise Unsupported('zip of built sequences')
        lens = [self.range_len(c) for c in colls]
        # the shortest: lengths comparable by constant
        best = lens[0]
        rest = []
        for l in lens[1:]:
            d = alg.linadd(l, best, -1)
            if d.op == 'const':
                if d.args[1] < 0:
                    best = l
            else:
                rest.append(l)
        n = alg.ext('min', [best] + rest, ()) if rest else best
        return self.symbolic_loop(alg.ext('range', [n], ()), st,
                                  lambda i, s, node=node: cb(out(i, self.pair(*[self.at_pos(c, i) for c in colls])),
                                                             s, node), node)

    def iterate_gen(self, it, st, cb, node):
        alg = self.alg
        func, fargs, parent = it.args
        if any(c.func is func for c in self.stack):
            return self.symbolic_loop(alg.mk('call', func, fargs), st, cb, node)
        fid = self.new_fid()
        self.set(st, fid, '__parent', parent)
        for n, v in fargs:
            self.set(st, fid, n, v)
        ctx = FunCtx(func, fid, cb)
        saved = self.loops_of
        self.loops_of = []
        mark_loops = None
        try:
            # the generator starts with no surrounding loops of its own
            st, _ = self.run_gen(ctx, st, saved)
        finally:
            self.loops_of = saved
        if fid in st.frames:
            fr = dict(st.frames)
            fr.pop(fid, None)
            st.frames = fr
        return st

    def run_gen(self, ctx, st, outer_loops):
        cb = ctx.on_yield

        def on_yield(term, s, node=None):
            saved = self.loops_of
            self.loops_of = outer_loops
            try:
                return cb(term, s, node)
            finally:
                self.loops_of = saved
        ctx.on_yield = on_yield
        return self.run_body(ctx, st)

    # -- symbolic loop

    def symbolic_loop(self, it, st, cb, node, is_while=False):
        alg = self.alg
        if st.pc == 0:
            return st
        it2 = alg.strip_wrap(it) if not is_while else it
        it = it2
        level = sum(1 for x in self.active_loops if x.args[0] is it) if not is_while else \
            sum(1 for x in self.active_loops if x.args[0].op == 'while')
        x = alg.elem(it, level)
        pre = st
        key = (id(node), tuple(c.func.qual for c in self.stack), it.op if is_while else it)
        changed = dict(self.loop_cache.get(key, {}))
        changed = {c: None for c in changed if self.cell(pre, c) is not None}
        marks = [(l, len(l)) for l in self.lists]
        item_marks = [(l, len(l)) for l in self.item_lists]
        ev_mark = len(self.events)
        ra_mark = len(self.raises)
        rounds = 0
        while True:
            rounds += 1
            if rounds > 12:
                raise Unsupported('loop did not stabilise')
            cur = pre.copy()
            holes = {}
            for c in changed:
                v = self.cell(pre, c)
                h = alg.mk('phi', len(self.active_loops), self.cell_name(c), x)
                ty = self.type_hint(v)
                h._typed, h._typ = True, ty
                holes[c] = h
                self.set_cell(cur, c, h)
            start_frames, start_heap = cur.frames, cur.heap
            self.active_loops.append(x)
            try:
                end = cb(x, cur, node)
            finally:
                self.active_loops.pop()
            new = []
            cand = [(end.frames, end.heap)] if end.pc else []
            for fr, hp in cand:
                for fid, f in fr.items():
                    f0 = start_frames.get(fid)
                    if f0 is None or f is f0:
                        continue
                    for n, v in f.items():
                        if n.startswith('__'):
                            continue
                        if f0.get(n) is not v and ('f', fid, n) not in changed:
                            new.append(('f', fid, n))
                for k, v in hp.items():
                    if start_heap.get(k) is not v and ('h',) + k not in changed:
                        new.append(('h',) + k)
            new = [c for c in new if self.cell(pre, c) is not None]
            if not new:
                break
            for c in new:
                changed[c] = None
            for l, k in marks + item_marks:
                del l[k:]
            del self.events[ev_mark:]
            del self.raises[ra_mark:]
        self.loop_cache[key] = dict(changed)

        # loop-carried variables -> recurrences
        ends = {c: self.cell(end, c) if end.pc else None for c in changed}
        carried = {}
        post = {}
        for c in changed:
            p, h, e = self.cell(pre, c), holes[c], ends[c]
            if e is None:
                post[c] = p
                continue
            post[c], carried[h] = self.summarise(p, h, e, x, pre, end, is_while, holes,
                                                 {holes[k]: (self.cell(pre, k), ends[k], k[2]) for k in changed})
        sub = {h: t for h, t in carried.items() if t is not None}
        if sub:
            for l, k in marks + item_marks:
                for e in l[k:]:
                    e.guard = alg.subst_n(e.guard, sub)
                    if e.term is not None:
                        e.term = alg.subst(e.term, sub)
                    e.binders = tuple(alg.subst(b, sub) for b in e.binders)
                    e.st = self.subst_state(e.st, sub)
            for e in self.events[ev_mark:]:
                e.guard = alg.subst_n(e.guard, sub)
                e.term = alg.subst(e.term, sub)
                e.binders = tuple(alg.subst(b, sub) for b in e.binders)
                if e.extra is not None:
                    e.extra = self.subst_extra(e.extra, sub)
            post = {c: alg.subst(t, sub) for c, t in post.items()}
        exits = 0
        ends_at = self.competing([(l, e) for l, k in marks for e in l[k:]], x)
        if ends_at is not None:
            # which of exits is taken is decided by the first element with any
            y = alg.first(x, ends_at)
            any_exit = alg.exists(x, ends_at)
            for l, k in marks:
                for e in l[k:]:
                    e.guard = alg.AND(any_exit, alg.subst_n(e.guard, {x: y}))
                    if e.term is not None:
                        e.term = alg.subst(e.term, {x: y})
                    e.binders = tuple(alg.subst(b, {x: y}) for b in e.binders)
                    e.st = self.subst_state(e.st, {x: y})
        for l, k in marks:
            for e in l[k:]:
                e.binders = e.binders + (x,)
                g = alg.close_all(e.guard, e.binders)
                exits = alg.OR(exits, g)
        for l, k in item_marks:
            for e in l[k:]:
                y, e.guard, e.term = alg.norm_binder(x, e.guard, e.term)
                e.binders = e.binders + (y,)
        yielded = False
        for e in self.events[ev_mark:]:
            y, e.guard, e.term = alg.norm_binder(x, e.guard, e.term)
            e.binders = e.binders + (y,)
            if e.kind == 'yield':
                yielded = True
        if ends_at is not None:
            exits = any_exit
        if exits and yielded and self.record:
            self.record_stop(marks, x, pre, node)
        for e in self.raises[ra_mark:]:
            e.binders = e.binders + (x,)
            exits = alg.OR(exits, alg.close_all(e.guard, e.binders))
        if is_while and 'loop' in self.watch and end.pc:
            cells = [(holes[c], self.cell(pre, c), ends[c]) for c in changed
                     if isinstance(ends[c], Term) and isinstance(self.cell(pre, c), Term)]
            self.events.append(Event('loop', self.full(end), alg.mk('loop', x, *(tuple(y) for y in zip(*cells))), self.where(node),
                                     node, self.stack[-1].func if self.stack else None))
        res = pre.copy()
        # local frames made inside of loop are dropped
        for c, v in post.items():
            self.set_cell(res, c, v)
        # new variables set in the loop for the first time
        if end.pc:
            for fid, f in end.frames.items():
                f0 = pre.frames.get(fid)
                if f0 is None or f is f0:
                    continue
                for n, v in f.items():
                    if n == '__mut' and f0.get(n) != v:
                        self.set(res, fid, n, v | (f0.get(n) or frozenset()))
                    elif n.startswith('__'):
                        continue
                    elif n not in f0:
                        self.set(res, fid, n, alg.mk('phi', 'last', n, x) if isinstance(v, Term) and x in v.fv else v)
        res.pc = alg.AND(pre.pc, alg.NOT(exits))
        return res

    def competing(self, exits, x):
        """exits of the loop with different outcomes that may happen at different elements: -> condition of any of them"""
        alg = self.alg
        if len(exits) < 2:
            return None
        closed = [(l, e, alg.close_all(e.guard, e.binders + (x,))) for l, e in exits]
        for i, (l, e, g) in enumerate(closed):
            for l2, e2, g2 in closed[:i]:
                same = l is l2 and (e.term is e2.term and (e.term is None or x not in e.term.fv))
                if not same and alg.AND(g, g2):
                    return alg.OR(*[alg.close_all(e.guard, e.binders) for _, e in exits])
        return None

    def record_stop(self, marks, x, pre, node):
        """loop that yields may be left early: this is observable too"""
        alg = self.alg
        for l, k in marks:
            for e in l[k:]:
                g = alg.AND(pre.base, e.guard)
                ev = Event('stop', g, alg.mk('stop', x.args[0]), self.where(e.node), e.node,
                           self.stack[-1].func if self.stack else None)
                ev.binders = e.binders
                self.events.append(ev)

    def subst_extra(self, extra, sub):
        def s(v):
            if isinstance(v, Term):
                return self.alg.subst(v, sub)
            if isinstance(v, list):
                return [s(x) for x in v]
            if isinstance(v, tuple):
                return tuple(s(x) for x in v)
            return v
        return s(extra)

    def type_hint(self, v):
        if v.op == 'v':
            for _, t in self.alts(v):
                ty = self.alg.typeof(t)
                if ty and ty != ('none',):
                    return ty
            return None
        ty = self.alg.typeof(v)
        return None if ty == ('none',) else ty

    def cell(self, st, c):
        if c[0] == 'f':
            return self.get(st, c[1], c[2])
        v = st.heap.get((c[1], c[2]))
        return v if v is not None else self.alg.attr(c[1], c[2])

    def set_cell(self, st, c, v):
        if c[0] == 'f':
            self.set(st, c[1], c[2], v)
        else:
            st.heap = {**st.heap, (c[1], c[2]): v}

    def cell_name(self, c):
        return c[2]

    def joint(self, h, x, steps):
        """variables that depend on each other: recurrence of all of them; holes are numbered in canonical order"""
        alg = self.alg
        group = {h}
        todo = [h]
        while todo:
            p, e, _ = steps[todo.pop()]
            if e is None:
                return None
            for o in steps:
                if o in e.fv and o not in group:
                    group.add(o)
                    todo.append(o)
        order = sorted(group, key=lambda o: (str(o._typ), steps[o][0].id, steps[o][2]))
        sub = {}
        for k, o in enumerate(order):
            hole = alg.mk('hole', k, str(o._typ))
            hole._typed, hole._typ = True, o._typ
            sub[o] = hole
        rec = alg.mk('mu', x, order.index(h), tuple(steps[o][0] for o in order),
                     tuple(alg.subst(steps[o][1], sub) for o in order))
        rec._typed, rec._typ = True, h._typ
        return rec

    def summarise(self, p, h, e, x, pre, end, is_while, holes, steps):
        """
        loop-carried variable: before loop p, at the start of iteration h, at the end of it e(h).
        -> value after loop, term for the value at the start of iteration
        """
        alg = self.alg
        end_pc = alg.bdd.constrain(end.pc, pre.pc)
        rec = self.joint(h, x, steps)
        if e is h:
            return p, p
        # accumulating sequence
        if not is_while:
            items = self.accumulated(e, h, end_pc if self.no_exits_matter(pre, end) else 1)
            if items is not None and not any(o in i.term.fv or o in i.guard.fv for i in items for o in holes.values()):
                new = [Item(i.guard, i.binders + (x,), i.kind, i.term) for i in items]
                kind = p.args[0] if p.op == 'seq' else self.seq_kind(p)
                if self.is_dict(p):
                    return alg.mk('map', self.map_items(p) + tuple(new)), rec
                if kind:
                    base = list(p.args[1]) if p.op == 'seq' else [Item(alg.B(1), (), 'star', p)]
                    return alg.seq(kind, base + new), rec
            # flag that once set stays set
            tb = self.as_bool(e)
            pb = self.as_bool(p)
            if tb is not None and pb is not None:
                t_h = alg.truth(h)
                vh = None
                if t_h > 1:
                    vh = alg.bdd.nodes[t_h][0]
                    off = alg.bdd.restrict(tb, vh, False)
                    on = alg.bdd.restrict(tb, vh, True)
                    ok = not any(o in alg.B(off).fv for o in holes.values())
                    if on == 1 and ok:
                        return alg.bool_term(alg.OR(pb, alg.exists(x, alg.AND(off, end_pc)))), rec
                    if off == 0 and ok and not any(o in alg.B(on).fv for o in holes.values()):
                        # stays true while condition holds for every element
                        bad = alg.AND(end_pc, alg.NOT(on))
                        return alg.bool_term(alg.AND(pb, alg.NOT(alg.exists(x, bad)))), rec
        if p is alg.none and e.op == 'meth' and e.args[1] in ('match', 'search', 'fullmatch') and \
                alg.AND(end_pc, alg.truth(e)) == 0:
            # the loop is left as soon as something matches
            return p, rec
        post = alg.mk('mupost', rec, alg.B(end_pc)) if rec is not None else alg.fresh('phi', 'post')
        post._typed, post._typ = True, h._typ
        return post, rec

    def no_exits_matter(self, pre, end):
        return False

    def as_bool(self, t):
        alg = self.alg
        if t.op == 'bool' or t.op == 'const' and isinstance(t.args[1], bool):
            return alg.truth(t)
        if t.op == 'v':
            parts = [(b.n, self.as_bool(y)) for b, y in t.args[0]]
            if all(y is not None for _, y in parts):
                return alg.OR(*[alg.AND(n, y) for n, y in parts])
            return None
        if alg.typeof(t) == ('bool',):
            return alg.truth(t)
        return None

    def seq_kind(self, p):
        ty = self.alg.typeof(p)
        if ty and ty[0] in ('list', 'set'):
            return ty[0]
        return None

    def accumulated(self, e, h, guard):
        """items added to h, or None"""
        alg = self.alg
        if e is h:
            return []
        if e.op == 'seq':
            items = list(e.args[1])
            own = [i for i in items if i.kind == 'star' and i.term is h]
            if len(own) == 1 and own[0].guard.n == 1 and not own[0].binders:
                rest = [i for i in items if i is not own[0]]
                if any(h in i.term.fv or h in i.guard.fv for i in rest):
                    return None
                if e.args[0] == 'list' and items[0] is not own[0]:
                    # prepended: the same elements
                    pass
                return rest
            return None
        if e.op == 'map':
            items = list(e.args[0])
            own = [i for i in items if i.kind == 'star' and i.term is h]
            if len(own) == 1 and own[0].guard.n == 1 and not own[0].binders:
                rest = [i for i in items if i is not own[0]]
                if any(h in i.term.fv or h in i.guard.fv for i in rest):
                    return None
                return rest
            return None
        if e.op == 'ext' and e.args[0] in ('list', 'set') and e.args[1] and e.args[1][0] is h:
            return []
        if e.op == 'v':
            res = []
            for b, t in e.args[0]:
                if h in b.fv:
                    return None
                sub = self.accumulated(t, h, guard)
                if sub is None:
                    return None
                res += [Item(alg.B(alg.AND(b.n, i.guard.n)), i.binders, i.kind, i.term) for i in sub]
            return res
        if e.op == 'union' and h in e.args:
            rest = [a for a in e.args if a is not h]
            if any(h in a.fv for a in rest):
                return None
            return [Item(alg.B(1), (), 'star', a) for a in rest]
        return None

    # ------------------------------------------------------------------ conditions

    def truth(self, t, st=None):
        if t.op == 'v':
            return self.lift_bool(st, self.alg.truth, t)
        return self.alg.truth(t)

    def cond(self, e, st):
        """guard of the expression being true"""
        alg = self.alg
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            acc = 1 if is_and else 0
            for v in e.values:
                if is_and:
                    reach = acc
                else:
                    reach = alg.NOT(acc)
                if alg.AND(self.full(st), reach) == 0:
                    continue
                c = self.sub_eval(st, reach, lambda s: self.cond(v, s))
                acc = alg.AND(acc, c) if is_and else alg.OR(acc, alg.AND(reach, c))
            return acc
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return alg.NOT(self.cond(e.operand, st))
        if isinstance(e, ast.IfExp):
            c = self.cond(e.test, st)
            a = self.sub_eval(st, c, lambda s: self.cond(e.body, s)) if alg.AND(self.full(st), c) else 0
            b = self.sub_eval(st, alg.NOT(c), lambda s: self.cond(e.orelse, s)) \
                if alg.AND(self.full(st), alg.NOT(c)) else 0
            return alg.OR(alg.AND(c, a), alg.AND(alg.NOT(c), b))
        if isinstance(e, ast.Compare):
            return self.compare(e, st)
        if isinstance(e, ast.NamedExpr):
            return self.truth(self.eval(e, st), st)
        return self.truth(self.eval(e, st), st)

    def sub_eval(self, st, reach, f):
        """evaluates part of expression that is reached only under the condition"""
        alg = self.alg
        if reach == 1:
            return f(st)
        s1 = st.copy(alg.AND(st.pc, reach))
        frames, heap = st.frames, st.heap
        r = f(s1)
        if s1.frames is not frames or s1.heap is not heap or s1.pc != alg.AND(st.pc, reach):
            s0 = st.copy(alg.AND(st.pc, alg.NOT(reach)))
            res = self.merge([(s1.pc, s1), (s0.pc, s0)])
            if res is not None:
                st.set_from(res)
        return r

    def compare(self, e, st):
        alg = self.alg
        left = self.eval(e.left, st)
        acc = 1
        for op, right_e in zip(e.ops, e.comparators):
            right = self.sub_eval(st, acc, lambda s: self.eval(right_e, s)) if alg.AND(self.full(st), acc) else alg.none
            c = self.compare_op(op, left, right, st)
            acc = alg.AND(acc, c)
            left = right
        return acc

    def compare_op(self, op, a, b, st):
        alg = self.alg
        if isinstance(op, (ast.Eq, ast.Is)):
            return self.lift_bool(st, alg.eq, a, b)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return alg.NOT(self.lift_bool(st, alg.eq, a, b))
        if isinstance(op, ast.In):
            return self.lift_bool(st, self.contains, a, b)
        if isinstance(op, ast.NotIn):
            return alg.NOT(self.lift_bool(st, self.contains, a, b))
        name = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[type(op)]
        return self.lift_bool(st, lambda x, y: alg.cmp(name, x, y), a, b)

    def contains(self, x, coll):
        if coll.op == 'gen':
            coll = self.materialise(coll)
        return self.alg.contains(x, coll)

    def materialise(self, t):
        """collection made by generator, as sequence of guarded items"""
        if t.op not in ('gen', 'ext', 'v') or t.op == 'ext' and t.args[0] not in (
                'filter', 'map', 'enumerate', 'zip', 'itertools.chain', 'itertools.chain.from_iterable'):
            return t
        st = State(self.cur_frames, 1, self.cur_heap, 1) if self.cur_frames is not None else State({}, 1, {}, 1)
        return self.collect(t, st, 'gen', None)

    cur_frames = None
    cur_heap = None

    def collect(self, it, st, kind, node):
        """all elements as literal sequence"""
        alg = self.alg
        out = []

        def cb(x, s, node=None):
            for g, t in self.alts(self.prune(s, x)):
                n = alg.AND(s.pc, g)
                if n:
                    out.append(Exit(n, t, EMPTY))
            return s
        saved = self.item_lists
        self.item_lists = saved + [out]
        s2 = State(st.frames, 1, st.heap, self.full(st))
        try:
            s2 = self.iterate(it, s2, cb, node)
        finally:
            self.item_lists = saved
        st.frames, st.heap = s2.frames, s2.heap
        return alg.seq(kind, [Item(alg.B(e.guard), e.binders, 'one', e.term) for e in out])

    item_lists = []

    # ------------------------------------------------------------------ expressions

    def eval(self, e, st):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Unsupported('analysis budget exceeded')
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__} at {self.where(e)}')
        return m(e, st)

    def e_Constant(self, e, st):
        return self.alg.const(e.value)

    def e_Name(self, e, st):
        return self.name(e.id, st)

    def name(self, name, st):
        fid = self.find_fid(st, name)
        if fid is not None:
            return self.prune(st, self.get(st, fid, name))
        func = self.stack[-1].func
        b = self.prog.lookup(func.module, name)
        if b is not None:
            return self.binding(b)
        if name in BUILTIN_NAMES:
            return self.alg.mk('extref', name)
        return self.alg.mk('extref', name)

    def binding(self, b):
        alg = self.alg
        k = b[0]
        if k == 'func':
            return alg.mk('func', b[1])
        if k == 'class':
            return alg.mk('class', b[1])
        if k == 'enum':
            return alg.mk('enumcls', b[1])
        if k == 'member':
            return alg.mk('enum', b[1], b[2])
        if k == 'module':
            return alg.mk('module', b[1])
        if k == 'ext':
            return alg.mk('extref', b[1])
        if k == 'const':
            return self.const_expr(b[1], b[2])
        raise Unsupported(f'binding {k}')

    def const_expr(self, e, module):
        """module or class level constant"""
        key = (e, module.name)
        cache = self.__dict__.setdefault('_consts', {})
        if key not in cache:
            f = FuncInfo('<module>', f'{module.short}:<module>', ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e), module)
            ctx = FunCtx(f, self.new_fid(), None)
            saved, loops = self.stack, self.loops_of
            self.stack = [ctx]
            self.loops_of = []
            try:
                cache[key] = self.eval(e, State({ctx.fid: {'__parent': None}}, 1, {}, 1))
            finally:
                self.stack, self.loops_of = saved, loops
        return cache[key]

    def e_Attribute(self, e, st):
        base = self.eval(e.value, st)
        return self.lift(st, lambda b: self.attribute(b, e.attr, st), base)

    def attribute(self, b, name, st):
        alg = self.alg
        op = b.op
        if op == 'module':
            r = self.prog.lookup(b.args[0], name)
            return self.binding(r) if r else alg.mk('extref', b.args[0].name + '.' + name)
        if op == 'extref':
            return alg.mk('extref', b.args[0] + '.' + name)
        if op == 'enumcls':
            if name in b.args[0].members:
                return alg.mk('enum', b.args[0], name)
            return alg.mk('attr', b, name)
        if op == 'class':
            r = self.prog.attr_of(('class', b.args[0]), name)
            if r:
                if r[0] == 'func' and r[1].classmethod:
                    return alg.mk('bound', r[1], b)
                return self.binding(r)
            return alg.mk('attr', b, name)
        if op == 'superproxy':
            f = b.args[0].method(name, skip=1)
            if f:
                return alg.mk('bound', f, b.args[1], 'super')
            return alg.mk('extref', 'object.' + name)
        v = st.heap.get((b, name))
        if v is not None:
            return self.prune(st, v)
        ty = alg.strip_opt(alg.typeof(b))
        if ty and ty[0] == 'union':
            # only one of the classes has it
            ts = [t for t in ty[1] if t and t[0] == 'cls' and t[1].method(name)]
            if len(ts) == 1:
                ty = ts[0]
        if ty and ty[0] == 'cls':
            cls = ty[1]
            f = cls.method(name)
            if f:
                if f.property:
                    return self.call_func(f, [b], [], st, None)
                if f.static:
                    return alg.mk('func', f)
                if f.classmethod:
                    return alg.mk('bound', f, alg.mk('class', cls))
                return alg.mk('bound', f, b)
            if op == 'rec' and any(n == name for n, _ in b.args[1]):
                return alg.attr(b, name)
            if not cls.annotation(name) or not cls.is_dataclass:
                c = cls.const(name)
                if c and not self.overridden_const(cls, name) and not self.assigned_in_methods(cls, name):
                    return self.const_expr(c[1], c[0].module)
            if name not in self.prog.reference_attrs and op != 'rec':
                v = self.made_by_init(b, cls, name)
                if v is not None:
                    return v
        return alg.attr(b, name)

    def made_by_init(self, b, cls, name):
        """attribute unknown to the reference: value it gets when the object is made"""
        key = (b, name)
        cache = self.__dict__.setdefault('_made', {})
        if key not in cache:
            cache[key] = None
            found = self.prog.made_by_init(cls, name)
            if found and (not self.stack or self.stack[-1].func is not found[0]):
                f, expr, kept = found
                ctx = FunCtx(f, self.new_fid(), None)
                frame = {'__parent': None, f.params[0][0]: b}
                for p, a in kept.items():
                    frame[p] = self.alg.attr(b, a)
                saved, loops, events = self.stack, self.loops_of, len(self.events)
                self.stack = [ctx]
                self.loops_of = []
                try:
                    v = self.eval(expr, State({ctx.fid: frame}, 1, {}, 1))
                finally:
                    self.stack, self.loops_of = saved, loops
                if len(self.events) == events:
                    cache[key] = v
                else:
                    del self.events[events:]
        return cache[key]

    def overridden_const(self, cls, name):
        return any(name in c.consts for c in self.prog.subclasses(cls) if c is not cls and name not in cls.consts)

    def assigned_in_methods(self, cls, name):
        for c in cls.mro():
            for f in c.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                        return True
        return False

    def e_Subscript(self, e, st):
        alg = self.alg
        base = self.eval(e.value, st)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, st) if e.slice.lower else alg.none
            hi = self.eval(e.slice.upper, st) if e.slice.upper else alg.none
            step = self.eval(e.slice.step, st) if e.slice.step else alg.none
            return self.lift(st, alg.slice, base, lo, hi, step)
        idx = self.eval(e.slice, st)
        if 'index' in self.watch:
            self.taken(base, idx, st, e)
        return self.lift(st, self.get_item, base, self.from_start(base, idx, st))

    def from_start(self, base, idx, st):
        """number from the end of what has a known length"""
        alg = self.alg
        if idx.op != 'const' or not isinstance(idx.args[1], int) or idx.args[1] >= 0 or base.op == 'v':
            return idx
        size = alg.ext('len', [base], ())
        full = self.full(st)
        alts, rest = [], full
        for v in alg.bdd.support(full):
            a = alg.atoms[v]
            if a.op == 'eq0':
                c, m = alg.aslin(a.args[0])
                if set(m) == {size} and abs(m[size]) == 1:
                    n = -c * m[size]
                    if n + idx.args[1] < 0:
                        return idx
                    alts.append((alg.bdd.var(v), alg.const(n + idx.args[1])))
                    rest = alg.AND(rest, alg.NOT(alg.bdd.var(v)))
        return alg.vterm(alts) if alts and rest == 0 else idx

    def taken(self, base, idx, st, node, how='index'):
        """item is taken, it must be there"""
        alg = self.alg
        for g, (b, i) in self.combos(st, base, idx):
            s2 = st.copy(alg.AND(st.pc, g))
            self.emit('index', s2, alg.mk('taken', b, i), node, extra=how)

    def taking(self, e, fn, args, kws, st):
        """calls that need an item to be there"""
        alg = self.alg
        if fn is not None:
            if fn.op == 'extref' and fn.args[0] in ('next', 'max', 'min') and len(args) == 1 and \
                    not any(k == 'default' for k, _ in kws) and args[0].op != 'spread':
                self.taken(args[0], alg.const(0), st, e, 'first')
        elif e.func.attr in ('pop', 'popleft') and len(e.args) < 2 and not e.keywords:
            base = self.eval(e.func.value, st)
            key = self.eval(e.args[0], st) if e.args else alg.const(-1)
            self.taken(base, key, st, e, 'index' if e.args or not self.is_dict(base) else 'first')
        elif e.func.attr in ('index', 'rindex', 'remove') and len(e.args) == 1:
            self.taken(self.eval(e.func.value, st), self.eval(e.args[0], st), st, e, 'member')

    def get_item(self, b, i):
        alg = self.alg
        if b.op == 'gen':
            b = self.materialise(b)
        if b.op == 'ext' and b.args[0] in ('list', 'tuple') and i.op == 'const' and b.args[1]:
            return alg.index(b.args[1][0], i)
        return alg.index(b, i)

    def combos(self, st, *ts):
        alg = self.alg
        full = self.full(st)
        combos = [(1, ())]
        for t in ts:
            new = []
            for g, xs in combos:
                for g2, x in self.alts(t):
                    gg = alg.AND(g, g2)
                    if gg and alg.AND(gg, full):
                        new.append((gg, xs + (x,)))
            combos = new
        return combos

    def e_Slice(self, e, st):
        raise Unsupported('slice object')

    def e_Starred(self, e, st):
        raise Unsupported('starred')

    def e_Tuple(self, e, st):
        return self.sequence('tuple', e.elts, st)

    def e_List(self, e, st):
        return self.sequence('list', e.elts, st)

    def e_Set(self, e, st):
        return self.sequence('set', e.elts, st)

    def sequence(self, kind, elts, st):
        alg = self.alg
        items = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                v = self.spread(v, st, x)
                if len(elts) == 1 and v.op == 'v' and not any(t.op == 'seq' for _, t in self.alts(v)):
                    # the same as the copy
                    return alg.vterm([(g, alg.seq(kind, [Item(alg.B(1), (), 'star', t)])) for g, t in self.alts(v)])
                for g, t in self.alts(v):
                    if t.op == 'seq':
                        items += [Item(alg.B(alg.AND(g, i.guard.n)), i.binders, i.kind, i.term) for i in t.args[1]]
                    else:
                        items.append(Item(alg.B(g), (), 'star', t))
            else:
                v = self.eval(x, st)
                if kind == 'tuple' or v.op == 'v' and len(elts) == 1:
                    items.append(Item(alg.B(1), (), 'one', v))
                else:
                    items.append(Item(alg.B(1), (), 'one', v))
        return self.seq_lift(kind, items, st)

    def seq_lift(self, kind, items, st):
        """v-alternatives inside of items -> guarded items or alternatives of the whole"""
        alg = self.alg
        if not any(i.term.op == 'v' for i in items):
            return alg.seq(kind, items)
        if kind in ('tuple', 'list'):
            # positions matter: alternatives of the whole sequence
            idx = [k for k, i in enumerate(items) if i.term.op == 'v' and not i.binders]
            if len(idx) <= 6 and not any(i.term.op == 'v' and i.binders for i in items):
                def make(*ts):
                    new = list(items)
                    for k, t in zip(idx, ts):
                        new[k] = Item(items[k].guard, items[k].binders, items[k].kind, t)
                    return alg.seq(kind, new)
                return self.lift(st, make, *[items[k].term for k in idx])
        new = []
        for i in items:
            for g, t in self.alts(i.term):
                new.append(Item(alg.B(alg.AND(i.guard.n, g)), i.binders, i.kind, t))
        return alg.seq(kind, new)

    def spread(self, v, st, node):
        """value under star: generator is materialised"""
        alg = self.alg
        res = []
        for g, t in self.alts(v):
            t0 = t
            if t.op == 'gen' or t.op == 'ext' and t.args[0] in ('filter', 'map', 'enumerate', 'zip', 'itertools.chain',
                                                                 'itertools.chain.from_iterable', 'range'):
                if not (t.op == 'ext' and t.args[0] == 'range' and not all(a.op == 'const' for a in t.args[1])):
                    t = self.collect(t, st, 'gen', node)
            elif t.op == 'ext' and t.args[0] in ('list', 'tuple', 'set', 'sorted', 'reversed', 'iter') and t.args[1] \
                    and t.args[1][0].op in ('gen',):
                t = alg.ext(t.args[0], [self.collect(t.args[1][0], st, 'gen', node)], ())
            res.append((g, t))
        return alg.vterm(res)

    def e_Dict(self, e, st):
        alg = self.alg
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                items.append(Item(alg.B(1), (), 'star', self.eval(v, st)))
            else:
                kt = self.eval(k, st)
                vt = self.eval(v, st)
                items.append(Item(alg.B(1), (), 'pair', alg.mk('pair', kt, vt)))
        return alg.mk('map', tuple(items))

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(self.alg.const(v.value))
            else:
                t = self.eval(v.value, st)
                if v.conversion != -1 or v.format_spec is not None:
                    t = self.lift(st, lambda x: self.alg.ext('format', [x], ()), t)
                parts.append(self.lift(st, lambda x: self.alg.ext('str', [x], ()), t))
        return self.lift(st, lambda *ps: self.alg.concat(list(ps)), *parts)

    def e_BoolOp(self, e, st):
        alg = self.alg
        is_and = isinstance(e.op, ast.And)
        res = []
        reach = 1
        for k, v in enumerate(e.values):
            if alg.AND(self.full(st), reach) == 0:
                break
            t = self.sub_eval(st, reach, lambda s: self.eval(v, s))
            if k == len(e.values) - 1:
                res += [(alg.AND(reach, g), x) for g, x in self.alts(t)]
                break
            for g, x in self.alts(t):
                c = alg.truth(x)
                stop = alg.NOT(c) if is_and else c
                n = alg.AND(reach, g, stop)
                if n:
                    if is_and and (x.op == 'bool' or alg.typeof(x) == ('bool',)):
                        x = alg.false
                    elif not is_and and (x.op == 'bool' or alg.typeof(x) == ('bool',)):
                        x = alg.true
                    res.append((n, x))
            c = self.truth(t, st)
            reach = alg.AND(reach, c if is_and else alg.NOT(c))
        res = [(n, x) for n, x in res if n]
        if not res:
            return alg.false
        return alg.vterm(res)

    def e_UnaryOp(self, e, st):
        alg = self.alg
        if isinstance(e.op, ast.Not):
            return alg.bool_term(alg.NOT(self.cond(e.operand, st)))
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.USub):
            return self.lift(st, lambda x: alg.sub(alg.const(0), x), v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(e.op, a, b, st)

    def binop(self, op, a, b, st):
        alg = self.alg
        if isinstance(op, ast.Add):
            a, b = self.spread_gen(a, st), self.spread_gen(b, st)
            return self.lift(st, alg.add, a, b)
        if isinstance(op, ast.Sub):
            return self.lift(st, alg.sub, a, b)
        if isinstance(op, ast.Mult):
            return self.lift(st, alg.mul, a, b)
        if isinstance(op, ast.BitOr):
            def bor(x, y):
                if alg.typeof(x) == ('bool',) and alg.typeof(y) == ('bool',):
                    return alg.bool_term(alg.OR(alg.truth(x), alg.truth(y)))
                return alg.union([x, y])
            return self.lift(st, bor, a, b)
        if isinstance(op, ast.BitAnd):
            def band(x, y):
                if alg.typeof(x) == ('bool',) and alg.typeof(y) == ('bool',):
                    return alg.bool_term(alg.AND(alg.truth(x), alg.truth(y)))
                return alg.inter(x, y)
            return self.lift(st, band, a, b)
        name = type(op).__name__

        def f(x, y):
            if x.op == 'const' and y.op == 'const' and name in ('Div', 'FloorDiv', 'Mod', 'Pow'):
                try:
                    v = {'Div': lambda p, q: p / q, 'FloorDiv': lambda p, q: p // q, 'Mod': lambda p, q: p % q,
                         'Pow': lambda p, q: p ** q}[name](x.args[1], y.args[1])
                    return alg.const(v)
                except Exception:
                    pass
            t = alg.mk('op' + name, x, y)
            if not t._typed:
                t._typed = True
                t._typ = ('float',) if name == 'Div' else (('str',) if alg.isstr(x) else
                                                           (('float',) if ('float',) in (alg.typeof(x), alg.typeof(y))
                                                            else ('int',)))
            return t
        return self.lift(st, f, a, b)

    def spread_gen(self, t, st):
        if t.op == 'gen':
            return self.collect(t, st, 'list', None)
        return t

    def e_IfExp(self, e, st):
        alg = self.alg
        c = self.cond(e.test, st)
        full = self.full(st)
        res = []
        if alg.AND(full, c):
            a = self.sub_eval(st, c, lambda s: self.eval(e.body, s))
            res += [(alg.AND(c, g), t) for g, t in self.alts(a)]
        nc = alg.NOT(c)
        if alg.AND(full, nc):
            b = self.sub_eval(st, nc, lambda s: self.eval(e.orelse, s))
            res += [(alg.AND(nc, g), t) for g, t in self.alts(b)]
        return alg.vterm(res) if res else alg.none

    def e_Compare(self, e, st):
        return self.alg.bool_term(self.compare(e, st))

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Lambda(self, e, st):
        ctx = self.stack[-1]
        return self.closure(self.nested_func(e, ctx.func), ctx.fid)

    def e_Yield(self, e, st):
        ctx = self.stack[-1]
        v = self.eval(e.value, st) if e.value else self.alg.none
        st2 = self.do_yield(ctx, v, st, e)
        st.set_from(st2)
        return self.alg.none

    def do_yield(self, ctx, v, st, node):
        if ctx.on_yield is None:
            raise Unsupported('yield outside of iteration')
        saved = self.stack
        self.stack = saved[:saved.index(ctx) + 1]
        try:
            return ctx.on_yield(v, st, node)
        finally:
            self.stack = saved

    def e_YieldFrom(self, e, st):
        ctx = self.stack[-1]
        it = self.eval(e.value, st)
        st2 = self.iterate(it, st, lambda x, s, node=None: self.do_yield(ctx, x, s, e), e)
        st.set_from(st2)
        return self.alg.none

    def e_ListComp(self, e, st):
        return self.comprehension('list', e, st)

    def e_SetComp(self, e, st):
        return self.comprehension('set', e, st)

    def e_GeneratorExp(self, e, st):
        return self.comprehension('gen', e, st)

    def e_DictComp(self, e, st):
        return self.comprehension('dict', e, st)

    def comprehension(self, kind, e, st):
        alg = self.alg
        out = []
        ctx = self.stack[-1]
        fid = self.new_fid()
        inner = FunCtx(ctx.func, fid, ctx.on_yield)
        s2 = State(st.frames, 1, st.heap, self.full(st))
        self.set(s2, fid, '__parent', ctx.fid)
        saved_loops = self.loops_of
        depth = len(self.stack) + 1

        def level(k, s):
            if k == len(e.generators):
                if kind == 'dict':
                    key = self.eval(e.key, s)
                    val = self.eval(e.value, s)
                    for g, (kk, vv) in self.combos(s, key, val):
                        out.append(Exit(alg.AND(s.pc, g), alg.mk('pair', kk, vv), EMPTY))
                    return s
                v = self.eval(e.elt, s)
                v = self.prune(s, v)
                if v.op == 'bool':
                    out.append(Exit(s.pc, v, EMPTY))
                else:
                    for g, t in self.alts(v):
                        n = alg.AND(s.pc, g)
                        if n:
                            out.append(Exit(n, t, EMPTY))
                return s
            gen = e.generators[k]
            it = self.eval(gen.iter, s)

            def cb(x, s, node=None):
                saved = self.stack
                self.stack = saved[:depth]
                try:
                    self.assign(gen.target, x, s)
                    skip = []
                    for cnd in gen.ifs:
                        c = self.cond(cnd, s)
                        n = alg.AND(s.pc, alg.NOT(c))
                        if n:
                            skip.append((n, s.copy()))
                        s = s.copy(alg.AND(s.pc, c))
                        if s.pc == 0:
                            break
                    if s.pc:
                        s = level(k + 1, s)
                    if skip:
                        r = self.merge([(s.pc, s)] + skip)
                        return r if r is not None else s
                    return s
                finally:
                    self.stack = saved
            return self.iterate(it, s, cb, e)
        self.stack = self.stack + [inner]
        self.item_lists = self.item_lists + [out]
        self.loops_of = []
        try:
            s2 = level(0, s2)
        finally:
            self.stack = self.stack[:-1]
            self.item_lists = self.item_lists[:-1]
            self.loops_of = saved_loops
        fr = dict(s2.frames)
        fr.pop(fid, None)
        st.frames, st.heap = fr, s2.heap
        if s2.pc != 1:
            st.pc = alg.AND(st.pc, s2.pc)
        items = [Item(alg.B(x.guard), x.binders, 'one', x.term) for x in out]
        if kind == 'dict':
            return alg.mk('map', tuple(Item(i.guard, i.binders, 'pair', i.term) for i in items))
        return alg.seq(kind, items)

    # ------------------------------------------------------------------ calls

    def e_Call(self, e, st):
        alg = self.alg
        if 'index' in self.watch and isinstance(e.func, ast.Attribute):
            self.taking(e, None, (), (), st)
        # mutator methods on variables, attributes, items
        if isinstance(e.func, ast.Attribute) and e.func.attr in MUTATORS:
            r = self.mutator(e, st)
            if r is not None:
                return r
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = self.stack[-1].func
            cls = getattr(f, 'home_cls', None) or f.cls
            return alg.mk('superproxy', cls, self.name(self.self_name(st), st))
        fn = self.eval(e.func, st)
        if fn.op == 'extref' and fn.args[0] in ('any', 'all') and len(e.args) == 1:
            return self.quantifier(fn.args[0], e, st)
        if fn.op == 'extref' and fn.args[0] in HEAP:
            return self.heap_call(fn.args[0], e, st)
        if fn.op == 'v' and any(f.op == 'extref' and f.args[0] in HEAP for _, f in self.alts(fn)):
            outs = []
            for g, f in self.alts(fn):
                s1 = st.copy(alg.AND(st.pc, g))
                if s1.pc == 0:
                    continue
                if f.op == 'extref' and f.args[0] in HEAP:
                    self.heap_call(f.args[0], e, s1)
                else:
                    args, kws, spread = self.arguments(e, s1)
                    self.call_value(f, args, kws, s1, e)
                outs.append((s1.pc, s1))
            m = self.merge(outs)
            if m is not None:
                st.set_from(m)
            return alg.fresh('unk', 'popped')
        args, kws, spread = self.arguments(e, st)
        if 'index' in self.watch:
            self.taking(e, fn, args, kws, st)
        if fn.op == 'v':
            res = []
            outs = []
            for g, f in self.alts(fn):
                s1 = st.copy(alg.AND(st.pc, g))
                if s1.pc == 0:
                    continue
                r = self.call_value(f, args, kws, s1, e)
                res += [(alg.AND(g, gg), t) for gg, t in self.alts(r)]
                outs.append((s1.pc, s1))
            m = self.merge(outs)
            if m is not None:
                st.set_from(m)
            return alg.vterm(res) if res else alg.none
        return self.call_value(fn, args, kws, st, e)

    def self_name(self, st):
        fid = self.stack[-1].fid
        for c in reversed(self.stack):
            if c.func.cls:
                return c.func.params[0][0]
        return 'self'

    def arguments(self, e, st):
        alg = self.alg
        args = []
        kws = []
        spread = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.spread(self.eval(a.value, st), st, a)
                if v.op == 'seq' and all(i.kind == 'one' and not i.binders and i.guard.n == 1 for i in v.args[1]):
                    args += [i.term for i in v.args[1]]
                else:
                    if v.op == 'seq' and v.args[0] in ('gen', 'tuple'):
                        v = alg.seq('list', v.args[1])
                    args.append(alg.mk('spread', v))
                    spread = True
            else:
                args.append(self.eval(a, st))
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                if v.op == 'map' and all(i.kind == 'pair' and i.guard.n == 1 and not i.binders and
                                         i.term.args[0].op == 'const' for i in v.args[0]):
                    kws += [(i.term.args[0].args[1], i.term.args[1]) for i in v.args[0]]
                else:
                    kws.append(('**', v))
            else:
                kws.append((k.arg, v))
        return args, kws, spread

    def quantifier(self, name, e, st):
        """any / all"""
        alg = self.alg
        a = e.args[0]
        it = self.eval(a, st)
        out = []
        is_any = name == 'any'

        def cb(x, s, node=None):
            c = self.truth(x, s)
            n = alg.AND(s.pc, c if is_any else alg.NOT(c))
            if n:
                out.append(Exit(n, None, EMPTY))
            return s
        self.item_lists = self.item_lists + [out]
        s2 = State(st.frames, 1, st.heap, self.full(st))
        try:
            s2 = self.iterate(it, s2, cb, e)
        finally:
            self.item_lists = self.item_lists[:-1]
        st.frames, st.heap = s2.frames, s2.heap
        g = alg.OR(*[alg.close_all(x.guard, x.binders) for x in out])
        return alg.bool_term(g if is_any else alg.NOT(g))

    def heap_call(self, name, e, st):
        alg = self.alg
        target = e.args[0]
        cur = self.eval(target, st)
        rest = [self.eval(a, st) for a in e.args[1:]]
        if name == 'heapq.heapify':
            return alg.none
        if rest:
            new = self.lift(st, lambda c, x: alg.seq('list', [Item(alg.B(1), (), 'star', c), Item(alg.B(1), (), 'one', x)]),
                            cur, rest[0])
            self.mutate_cell(st, target, cur, new, name, rest, e)
        return alg.none if name != 'heapq.heappushpop' else alg.fresh('unk', 'popped')

    # -- in-place changes

    def mutator(self, e, st):
        alg = self.alg
        target = e.func.value
        name = e.func.attr
        base = self.eval(target, st)
        # user-defined methods with such a name
        tys = [alg.strip_opt(alg.typeof(t)) for _, t in self.alts(base)]
        if any(t and t[0] == 'cls' for t in tys) or any(t.op in ('module', 'extref', 'class') for _, t in self.alts(base)):
            return None
        args, kws, _ = self.arguments(e, st)
        if name in ('sort', 'reverse') and not args:
            new = self.call_ext('sorted' if name == 'sort' else 'reversed', [base], kws, st, e)
            self.mutate_cell(st, target, base, new, name, [], e)
            return alg.none
        return self.effect(st, target, base, name, args, e)

    def effect(self, st, target, base, name, args, node):
        """in-place change of value that expression `target` gives"""
        alg = self.alg
        res = alg.none
        vals = [self.spread(a, st, node) if a.op in ('gen', 'v', 'ext') else a for a in args]

        def one(t, *xs):
            if t.op == 'hist':
                return t
            k = t.args[0] if t.op == 'seq' else self.seq_kind(t) or ('list' if name in ('append', 'extend') else 'set')
            star = lambda v: Item(alg.B(1), (), 'star', v)
            single = lambda v: Item(alg.B(1), (), 'one', v)
            if name in ('append', 'add', 'appendleft') and len(xs) == 1:
                return alg.seq(k, [star(t), single(xs[0])])
            if name in ('extend', 'update', 'iadd') and len(xs) == 1 and t.op != 'map' and not self.is_dict(t):
                return alg.seq(k, [star(t), star(xs[0])])
            if name == 'insert' and len(xs) == 2:
                return alg.seq(k, [single(xs[1]), star(t)])
            if name == 'setitem' and self.is_dict(t) and len(xs) == 2:
                return alg.mk('map', self.map_items(t) + (Item(alg.B(1), (), 'pair', alg.mk('pair', xs[0], xs[1])),))
            if name == 'update' and self.is_dict(t) and len(xs) == 1 and self.is_dict(xs[0]):
                return alg.mk('map', self.map_items(t) + self.map_items(xs[0]))
            if name == 'clear':
                return alg.seq(k, [])
            r = alg.mk('mutated', t, name, tuple(xs))
            r._typed, r._typ = True, alg.typeof(t)
            return r
        new = self.lift(st, one, base, *vals) if all(v.op != 'spread' for v in vals) else alg.fresh('unk', 'spread')
        self.mutate_cell(st, target, base, new, name, vals, node)
        if name == 'pop':
            return alg.fresh('unk', 'popped')
        if name == 'setdefault' and len(vals) == 2:
            return self.lift(st, lambda b, k, d: alg.meth(b, 'setdefault', [k, d]), base, *vals)
        return res

    def map_items(self, t):
        return t.args[0] if t.op == 'map' else (Item(self.alg.B(1), (), 'star', t),)

    def update_container(self, st, target, key, name, args):
        """list in dict `target` changed in place: dict of lists is a collection of (key, value) pairs"""
        alg = self.alg
        cont = self.eval(target, st)
        nested = name == 'setitem' and len(args) == 2
        if not any(self.is_dict(t) for _, t in self.alts(cont)):
            # list in list
            nested = False
            name = 'nested ' + name
        elif not all(self.is_dict(t) for _, t in self.alts(cont)) or len(args) != 1 and not nested:
            return

        def one(t, k, x):
            if name in ('append', 'add'):
                new = (Item(alg.B(1), (), 'multi', alg.mk('pair', k, x)),)
            else:
                new = tuple(Item(i.guard, i.binders, 'multi' if i.kind == 'one' else 'multistar',
                                 alg.mk('pair', k, i.term)) for i in alg.items_of(x))
            return alg.mk('map', self.map_items(t) + new)
        if nested:
            # dict in dict
            new = self.lift(st, lambda t, k, k2, x: alg.mk('map', self.map_items(t) + (
                Item(alg.B(1), (), 'nested', alg.mk('pair', k, alg.mk('pair', k2, x))),)), cont, key, *args)
        elif name in ('append', 'add', 'extend', 'update', 'iadd'):
            new = self.lift(st, one, cont, key, args[0])
        else:
            def other(t, k, *xs):
                r = alg.mk('mutated', t, name, (k, *xs))
                r._typed, r._typ = True, alg.typeof(t)
                return r
            new = self.lift(st, other, cont, key, *args)
        if isinstance(target, ast.Name):
            fid = self.find_fid(st, target.id)
            if fid is not None:
                self.set(st, fid, target.id, new)
        elif isinstance(target, ast.Attribute):
            obj = self.eval(target.value, st)
            if obj.op != 'v':
                st.heap = {**st.heap, (obj, target.attr): new}

    def place_in_dict(self, e, st):
        """(dict expression, key) if the expression is a value in dict"""
        if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
            if isinstance(e.value, (ast.Name, ast.Attribute)):
                return e.value, self.eval(e.slice, st)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'setdefault' and \
                len(e.args) == 2 and isinstance(e.func.value, (ast.Name, ast.Attribute)):
            return e.func.value, self.eval(e.args[0], st)
        return None

    def is_dict(self, t):
        ty = self.alg.typeof(t)
        return bool(ty) and ty[0] in ('dict', 'defaultdict')

    def mutate_cell(self, st, target, base, new, name, args, node):
        alg = self.alg
        for g, combo in self.combos(st, base, *args):
            s2 = st.copy(alg.AND(st.pc, g))
            self.emit('effect', s2, alg.mk('mut', name, combo[0], tuple(combo[1:])), node,
                      extra=(name, combo[0], list(combo[1:]), ast.unparse(target)))
        if isinstance(target, ast.Name):
            fid = self.find_fid(st, target.id)
            if fid is not None:
                self.set(st, fid, target.id, new)
                mut = self.get(st, fid, '__mut') or frozenset()
                self.set(st, fid, '__mut', mut | {target.id})
                alias = dict(self.get(st, fid, '__alias') or ()).get(target.id)
                if alias is not None:
                    self.update_container(st, alias[0], alias[1], name, args)
        elif self.place_in_dict(target, st) is not None:
            d, key = self.place_in_dict(target, st)
            self.update_container(st, d, key, name, args)
        elif isinstance(target, ast.Attribute):
            obj = self.eval(target.value, st)
            if obj.op != 'v':
                st.heap = {**st.heap, (obj, target.attr): new}

    # -- calling

    def call_value(self, fn, args, kws, st, node):
        alg = self.alg
        op = fn.op
        if op == 'closure':
            c = self.closures[fn.args[0]]
            return self.call_func(c.func, args, kws, st, node, parent=c.fid)
        if op == 'func':
            return self.call_func(fn.args[0], args, kws, st, node, static=True)
        if op == 'bound':
            return self.call_func(fn.args[0], [fn.args[1]] + list(args), kws, st, node, static=len(fn.args) > 2)
        if op == 'class':
            return self.construct(fn.args[0], args, kws, st, node)
        if op == 'extref':
            return self.call_ext(fn.args[0], args, kws, st, node)
        ty = alg.strip_opt(alg.typeof(fn))
        if ty and ty[0] == 'cls' and ty[1].method('__call__'):
            return self.call_func(ty[1].method('__call__'), [fn] + list(args), kws, st, node)
        if op == 'attr':
            recv, name = fn.args
            return self.call_method(recv, name, args, kws, st, node)
        if op == 'partial':
            f, pargs, pkws = fn.args
            return self.call_value(f, list(pargs) + list(args), list(pkws) + list(kws), st, node)
        if op == 'ext' and fn.args[0] in ('operator.itemgetter', 'operator.attrgetter') and len(args) == 1:
            if fn.args[0] == 'operator.itemgetter' and len(fn.args[1]) == 1:
                return self.lift(st, alg.index, args[0], fn.args[1][0])
        return self.lift(st, lambda f, *xs: alg.mk('invoke' if f.op == 'sym' else 'apply', f, tuple(xs), tuple(k for k, _ in kws)), fn, *args,
                         *[v for _, v in kws])

    def call_method(self, recv, name, args, kws, st, node):
        """method of value without repository class"""
        alg = self.alg
        if name == 'join' and len(args) == 1:
            args = [self.spread(args[0], st, node)]
        if name in ('union', 'intersection', 'difference', 'isdisjoint', 'issubset', 'issuperset'):
            args = [self.spread(a, st, node) for a in args]
        given = tuple(args)
        if name == 'readline' and recv.op != 'v':
            return self.read_stream(recv, name, args, st, node)
        if name == 'sub' and args:
            args = [self.constant_lambda(args[0], st, node), *args[1:]]

        def f(r, *xs):
            a = xs[:len(args)]
            k = tuple(zip([n for n, _ in kws], xs[len(args):]))
            if name in ('isdisjoint', 'issubset', 'issuperset', 'islower', 'isupper', 'startswith', 'endswith', 'isdigit'):
                t = alg.meth(r, name, a, k)
                return alg.bool_term(alg.truth(t)) if t.op != 'const' else t
            return alg.meth(r, name, a, k)
        res = self.lift(st, f, recv, *args, *[v for _, v in kws])
        if 'call' in self.watch:
            self.emit('methcall', st, alg.mk('callev', name, recv, given), node)
        return res

    def read_stream(self, recv, name, args, st, node):
        """reading changes the stream: n-th reading gives n-th text"""
        alg = self.alg
        n = st.heap.get((recv, '#read')) or alg.const(0)
        if 'call' in self.watch:
            self.emit('methcall', st, alg.mk('callev', name, recv, tuple(args)), node)
        res = self.lift(st, lambda k: alg.meth(recv, name, args, (('#', k),)), n)
        st.heap = {**st.heap, (recv, '#read'): self.lift(st, lambda k: alg.linadd(k, alg.const(1)), n)}
        return res

    def constant_lambda(self, t, st, node):
        """function passed as an argument -> what it gives, if that does not depend on its parameters"""
        res = self.as_lambda(t, st, node)
        if res.op == 'lam':
            from .compare import subterms
            if not any(x.op == 'arg' for x in subterms(self.alg, [res.args[1]])):
                return res.args[1]
        return res

    def is_virtual(self, func):
        """overridden in subclass (or overriding): resolved only at run time"""
        if not func.cls:
            return False
        for c in self.prog.subclasses(func.cls):
            if c is not func.cls and func.name in c.methods:
                return True
        return False

    def base_method(self, func):
        """the topmost declaration of the method"""
        if not func.cls:
            return func
        res = func
        for c in func.cls.mro():
            if func.name in c.methods:
                res = c.methods[func.name]
        return res

    def call_func(self, func, args, kws, st, node, parent=None, static=False):
        alg = self.alg
        bound = self.bind(func, args, kws, st, node)
        if bound is None:
            return self.lift(st, lambda *xs: alg.mk('call', func, tuple(('?%d' % i, x) for i, x in enumerate(xs))),
                             *args, *[v for _, v in kws])
        if func.qual in self.generalise and not any(c.func is func for c in self.stack):
            # analysed for any arguments
            bound = [(n, self.generalise[func.qual].get(n, v)) for n, v in bound]
        opaque = func.qual in self.opaque or (not self.inline_virtual and not static and self.is_virtual(func)) or \
            any(c.func is func for c in self.stack)
        if func.is_lambda or parent is not None:
            opaque = any(c.func is func for c in self.stack)
        contract = self.contracts.get(func.qual) if opaque else None
        if contract is not None and {n for n, _ in bound} == {p for ps in contract.params[:2] for p in ps}:
            # callers see what it's required to do; the function itself is compared with that on its own
            func, opaque = contract, False
        if opaque:
            names = [n for n, _ in bound]
            bound = [(n, self.callback(v, st, node)) for n, v in bound]
            f2 = func

            def mkcall(*xs):
                return alg.vterm([(g, alg.mk('call', f2, tuple(zip(names, ys)))) for g, ys in self.split_bools(xs)])
            t = self.lift(st, mkcall, *[v for _, v in bound])
            if 'call' in self.watch:
                for g, x in self.alts(t):
                    s2 = st.copy(alg.AND(st.pc, g))
                    self.emit('call', s2, x, node)
            return t
        if func.is_generator:
            return alg.mk('gen', func, tuple(bound), parent)
        # inline
        fid = self.new_fid()
        s2 = State(st.frames, 1, st.heap, self.full(st))
        self.set(s2, fid, '__parent', parent)
        for n, v in bound:
            self.set(s2, fid, n, v)
        ctx = FunCtx(func, fid, None)
        saved = self.loops_of
        self.loops_of = []
        saved_lists, saved_items = self.lists, self.item_lists
        self.lists, self.item_lists = [], []
        try:
            s2, val = self.run_body(ctx, s2)
        finally:
            self.loops_of = saved
            self.lists, self.item_lists = saved_lists, saved_items
        # copy-out of the arguments changed in place
        mut = self.get(s2, fid, '__mut') or frozenset()
        outs = [(n, self.get(s2, fid, n)) for n in mut]
        fr = s2.frames
        if fid in fr and not self.captured(fid):
            fr = dict(fr)
            fr.pop(fid)
        st.frames, st.heap = fr, s2.heap
        if s2.pc != 1:
            st.pc = alg.AND(st.pc, s2.pc)
        if outs and isinstance(node, ast.Call):
            self.copy_out(func, node, outs, st)
        return val

    def captured(self, fid):
        return any(c.fid == fid for c in self.closures.values())

    def copy_out(self, func, node, outs, st):
        pos, kwonly, var, kw = func.params
        names = pos[1:] if func.cls and not func.static and isinstance(node.func, ast.Attribute) else pos
        for n, v in outs:
            expr = None
            if n in names and names.index(n) < len(node.args):
                expr = node.args[names.index(n)]
            for k in node.keywords:
                if k.arg == n:
                    expr = k.value
            if isinstance(expr, ast.Name):
                fid = self.find_fid(st, expr.id)
                if fid is not None:
                    self.set(st, fid, expr.id, v)
                    mut = self.get(st, fid, '__mut') or frozenset()
                    self.set(st, fid, '__mut', mut | {expr.id})

    def bind(self, func, args, kws, st, node):
        """arguments -> [(param, value)] in the order of declaration, defaults included"""
        alg = self.alg
        pos, kwonly, var, kw = func.params
        if any(a.op == 'spread' for a in args) or any(n == '**' for n, _ in kws):
            # *args of unknown length: positional tail is components of the spread
            return self.bind_spread(func, args, kws, st, node)
        res = {}
        extra = []
        for i, a in enumerate(args):
            if i < len(pos):
                res[pos[i]] = a
            else:
                extra.append(a)
        extrakw = []
        for n, v in kws:
            if n in pos or n in kwonly:
                res[n] = v
            else:
                extrakw.append((n, v))
        if extra and not var or extrakw and not kw:
            return None
        defaults = func.defaults()
        if self.stack and self.stack[-1].func.module.name.startswith('spec.'):
            defaults = {**defaults, **self.prog.reference_defaults.get(func.qual, {})}
        for p in pos + kwonly:
            if p not in res:
                if p in defaults:
                    res[p] = self.const_expr(defaults[p], func.module) if not func.outer else \
                        self.default_value(func, defaults[p], st)
                else:
                    return None
        if var:
            res[var] = alg.seq('tuple', [Item(alg.B(1), (), 'one', a) for a in extra])
        if kw:
            res[kw] = alg.mk('map', tuple(Item(alg.B(1), (), 'pair', alg.mk('pair', alg.const(n), v))
                                          for n, v in extrakw))
        return [(p, res[p]) for p in pos + kwonly + ([var] if var else []) + ([kw] if kw else [])]

    def default_value(self, func, e, st):
        if isinstance(e, ast.Constant):
            return self.alg.const(e.value)
        return self.eval(e, st)

    def bind_spread(self, func, args, kws, st, node):
        alg = self.alg
        pos, kwonly, var, kw = func.params
        if any(n == '**' for n, _ in kws):
            return None
        k = [i for i, a in enumerate(args) if a.op == 'spread']
        if len(k) != 1 or k[0] != len(args) - 1:
            return None
        k = k[0]
        s = args[k].args[0]
        if s.op == 'v':
            return None
        res = {}
        if k > len(pos):
            return None
        for i in range(k):
            res[pos[i]] = args[i]
        given = {n for n, _ in kws}
        rest = [p for p in pos[k:] if p not in given]
        # the tail: components
        for i, p in enumerate(rest):
            res[p] = alg.index(s, alg.const(i))
        if var:
            res[var] = alg.slice(s, alg.const(len(rest)), alg.none, alg.none) if rest else s
        for n, v in kws:
            res[n] = v
        defaults = func.defaults()
        for p in kwonly:
            if p not in res:
                if p in defaults:
                    res[p] = self.const_expr(defaults[p], func.module)
                else:
                    return None
        if kw:
            res[kw] = alg.mk('map', ())
        return [(p, res[p]) for p in pos + kwonly + ([var] if var else []) + ([kw] if kw else [])]

    def construct(self, cls, args, kws, st, node):
        alg = self.alg
        if cls.is_dataclass:
            fields = cls.all_fields()
            names = [f[0] for f in fields]
            if any(a.op == 'spread' for a in args) or any(n == '**' for n, _ in kws) or len(args) > len(names):
                return self.lift(st, lambda *xs: alg.mk('new', cls, tuple(('?%d' % i, x) for i, x in enumerate(xs))),
                                 *args, *[v for _, v in kws])
            given = dict(zip(names, args))
            given.update(dict(kws))
            vals = []
            for n, ann, default in fields:
                if n in given:
                    vals.append(given[n])
                elif default is not None:
                    vals.append(self.field_default(cls, default))
                else:
                    vals.append(alg.mk('unbound'))
            r = self.lift(st, lambda *xs: alg.rec(cls, list(zip(names, xs))), *vals)
            if 'call' in self.watch:
                self.emit('new', st, r, node)
            return r
        t = None
        f = cls.method('__init__')
        bound = None
        if f:
            bound = self.bind(f, [alg.mk('unbound')] + list(args), kws, st, node)
        if bound is not None:
            names = [n for n, _ in bound[1:]]
            t = self.lift(st, lambda *xs: alg.mk('new', cls, tuple(zip(names, xs))), *[v for _, v in bound[1:]])
        else:
            t = self.lift(st, lambda *xs: alg.mk('new', cls, tuple(('?%d' % i, x) for i, x in enumerate(xs))),
                          *args, *[v for _, v in kws])
        if 'call' in self.watch:
            self.emit('new', st, t, node)
        return t

    def field_default(self, cls, default):
        alg = self.alg
        if isinstance(default, ast.Call) and (dotted(default.func) or '').split('.')[-1] == 'field':
            for k in default.keywords:
                if k.arg == 'default_factory':
                    d = dotted(k.value)
                    if d in ('list', 'set'):
                        return alg.seq(d, [])
                    if d == 'dict':
                        return alg.mk('map', ())
                    if isinstance(k.value, ast.Lambda):
                        return self.const_expr(k.value.body, cls.module)
                    return alg.mk('unk', 'factory')
                if k.arg == 'default':
                    return self.const_expr(k.value, cls.module)
        return self.const_expr(default, cls.module)

    def as_lambda(self, t, st, node, types=()):
        """function passed as an argument -> what it gives for its parameters"""
        alg = self.alg
        n = None
        if t.op == 'closure':
            n = len(self.closures[t.args[0]].func.params[0])
        elif t.op == 'func':
            n = len(t.args[0].params[0])
        elif t.op == 'bound':
            n = len(t.args[0].params[0]) - 1
        elif t.op == 'ext' and t.args[0] in ('operator.itemgetter', 'operator.attrgetter') or \
                t.op == 'extref' and (t.args[0] == 'len' or t.args[0].startswith('str.')):
            n = 1
        if n is None:
            return t
        args = []
        for i in range(n):
            a = alg.mk('arg', i, str(types[i]) if i < len(types) else '')
            a._typed, a._typ = True, types[i] if i < len(types) else None
            args.append(a)
        s2 = st.copy()
        mark = len(self.events)
        res = self.call_value(t, args, [], s2, node)
        if any(e.kind == 'effect' for e in self.events[mark:]):
            return t
        del self.events[mark:]
        return alg.mk('lam', n, res)

    def split_bools(self, xs):
        """values -> guarded alternatives of them with truth values that are not constant replaced by True and False"""
        alg = self.alg
        res = [(1, ())]
        for x in xs:
            if x.op == 'bool' or x.op == 'sym' and alg.typeof(x) == ('bool',):
                n = alg.truth(x)
                opts = [(n, alg.const(True)), (alg.NOT(n), alg.const(False))]
            else:
                opts = [(1, x)]
            res = [(alg.AND(g, g2), ys + (y,)) for g, ys in res for g2, y in opts if alg.AND(g, g2)]
        return res

    def callback(self, t, st, node):
        """function passed to boundary function -> everything it does for any argument"""
        alg = self.alg
        if t.op not in ('closure', 'partial', 'bound') or self.callback_type is None:
            return t
        a = alg.mk('arg', 0, str(self.callback_type))
        a._typed, a._typ = True, self.callback_type
        s2 = State(st.frames, 1, st.heap, 1)
        saved, saved_loops = self.events, self.loops_of
        self.events, self.loops_of = [], []
        try:
            res = self.call_value(t, [a], [], s2, node)
            if res.op == 'gen':
                self.iterate(res, s2, lambda x, s, n=None: self.top_yield(x, s, n or node), node)
                res = alg.none
            evs = {alg.mk('did', e.kind, alg.B(e.guard), e.term, tuple(e.binders)) for e in self.events
                   if e.kind in ('yield', 'effect')}
        finally:
            self.events, self.loops_of = saved, saved_loops
        return alg.mk('hof', tuple(sorted(evs, key=lambda e: e.id)), res)

    def call_ext(self, name, args, kws, st, node):
        alg = self.alg
        if name in ('sorted', 'min', 'max', 'heapq.nlargest', 'heapq.nsmallest') and args and \
                any(k == 'key' for k, _ in kws):
            ty = alg.elemtype(alg.typeof(args[-1] if args[-1].op != 'gen' else self.materialise(args[-1])))
            kws = [(k, self.as_lambda(v, st, node, (ty,)) if k == 'key' else v) for k, v in kws]
        elif name == 're.sub':
            args = [self.as_lambda(a, st, node) for a in args]
        elif name == 'functools.reduce' and len(args) > 1:
            ty = alg.elemtype(alg.typeof(args[1] if args[1].op != 'gen' else self.materialise(args[1])))
            args = [self.as_lambda(args[0], st, node, (ty, ty)), *args[1:]]
        if name == 'dataclasses.replace' and args:
            changes = dict(kws)
            names = list(changes)

            def rep(t, *vals):
                ty = alg.strip_opt(alg.typeof(t))
                if ty and ty[0] == 'cls' and ty[1].is_dataclass:
                    ch = dict(zip(names, vals))
                    if all(n in [f[0] for f in ty[1].all_fields()] for n in ch):
                        return alg.update_rec(t, ty[1], ch)
                return alg.mk('replaced', t, tuple(zip(names, vals)))
            return self.lift(st, rep, args[0], *[changes[n] for n in names])
        if name == 'isinstance' and len(args) == 2:
            return alg.bool_term(self.lift_bool(st, self.isinstance_, args[0], args[1]))
        if name in ('bool',) and len(args) == 1:
            return alg.bool_term(self.truth(args[0], st))
        if name in ('list', 'set', 'tuple', 'sorted', 'frozenset', 'reversed', 'iter', 'dict'):
            if name in ('list', 'set', 'tuple', 'frozenset', 'dict') and len(args) == 1 and args[0].op in ('seq', 'map') and \
                    not args[0].args[-1]:
                args = ()
            if not args:
                if name == 'dict':
                    if kws and all(n != '**' for n, _ in kws):
                        return alg.mk('map', tuple(Item(alg.B(1), (), 'pair', alg.mk('pair', alg.const(n), v))
                                                   for n, v in kws))
                    return alg.mk('map', ())
                if name == 'set' and self.history:
                    t = alg.mk('hist', self.hist_ids.setdefault(id(node), len(self.hist_ids)))
                    t._typed, t._typ = True, ('set', ('str',))
                    return t
                if name in ('list', 'set', 'tuple', 'frozenset'):
                    return alg.seq({'frozenset': 'set'}.get(name, name), [])
            else:
                v = self.spread(args[0], st, node) if name not in ('reversed',) or args[0].op == 'v' else args[0]
                if name == 'dict' and v.op == 'map' and not kws:
                    return v
                res = self.lift(st, lambda x, *ks: alg.ext(name, [x], tuple(zip([n for n, _ in kws], ks))), v,
                                *[k for _, k in kws])
                if name == 'sorted':
                    self.sorts.append(res)
                return res
        if name in ('collections.defaultdict', 'collections.OrderedDict', 'collections.Counter') and not kws:
            return alg.mk('map', ())
        if name == 'collections.deque':
            if args:
                return self.lift(st, lambda x: alg.ext('list', [x], ()), self.spread(args[0], st, node))
            return alg.seq('list', [])
        if name == 'next' and args:
            return self.call_next(args, st, node)
        if name == 'len' and len(args) == 1:
            v = self.spread(args[0], st, node)
            return self.lift(st, lambda x: alg.ext('len', [x], ()), v)
        if name == 'functools.partial' and args:
            return alg.mk('partial', args[0], tuple(args[1:]), tuple(kws))
        if name == 'getattr' and len(args) >= 2 and args[1].op == 'const':
            return self.lift(st, lambda b: self.attribute(b, args[1].args[1], st), args[0])
        if name.startswith('str.') and name.count('.') == 1 and args:
            return self.call_method(args[0], name[4:], args[1:], kws, st, node)
        if name in ('operator.itemgetter', 'operator.attrgetter'):
            return alg.ext(name, args, kws)
        if name in ('filter', 'map') and len(args) == 2 and args[0].op == 'closure':
            ty = alg.elemtype(alg.typeof(args[1]))
            lam = self.as_lambda(args[0], st, node, (ty,))
            if lam.op == 'lam':
                if name == 'filter':
                    lam = alg.mk('lam', lam.args[0], alg.bool_term(alg.truth(lam.args[1])))
                alg.closure_lams[args[0]] = lam
        if name in ('filter', 'map', 'enumerate', 'zip', 'range') or name.startswith('itertools.'):
            if any(a.op == 'spread' for a in args):
                return alg.mk('ext', name, tuple(args), tuple(kws))
            return self.lift(st, lambda *xs: alg.ext(name, xs[:len(args)],
                                                     tuple(zip([n for n, _ in kws], xs[len(args):]))),
                             *args, *[v for _, v in kws])
        if name == 'sum' and args:
            args = [self.spread(args[0], st, node)] + list(args[1:])
        if name in ('min', 'max') and len(args) == 1:
            v = self.spread(args[0], st, node)
            if self.seq_plain(v) and not kws:
                return self.lift(st, lambda *xs: alg.ext(name, xs, ()), *[i.term for i in v.args[1]])
            args = [v]
        if 'call' in self.watch:
            self.emit('extcall', st, alg.mk('callev', name, tuple(args), tuple(kws)), node)
        args = [self.spread(a, st, node) if a.op == 'gen' else a for a in args]
        return self.lift(st, lambda *xs: alg.ext(name, xs[:len(args)], tuple(zip([n for n, _ in kws], xs[len(args):]))),
                         *args, *[v for _, v in kws])

    def call_next(self, args, st, node):
        """next(iterable[, default]): the first element"""
        alg = self.alg
        seq = self.collect(args[0], st, 'gen', node) if args[0].op != 'seq' else args[0]
        default = args[1] if len(args) > 1 else None
        if seq.op == 'seq' and len(seq.args[1]) == 1:
            i = seq.args[1][0]
            if i.kind == 'one':
                e = Exit(i.guard.n, i.term, EMPTY)
                e.binders = i.binders
                g, term, _ = self.close_exit(e)
                if default is None:
                    return term
                return alg.vterm([(g, term)] + [(alg.AND(alg.NOT(g), gg), t) for gg, t in self.alts(default)])
        if seq.op == 'seq' and seq.args[1] and default is not None and \
                len({i.term for i in seq.args[1]}) == 1 and not any(i.term.fv for i in seq.args[1]) and \
                all(i.kind == 'one' for i in seq.args[1]):
            g = alg.OR(*[alg.close_all(i.guard.n, i.binders) for i in seq.args[1]])
            return alg.vterm([(g, seq.args[1][0].term), (alg.NOT(g), default)])
        if seq.op == 'ext' and seq.args[0] in ('iter', 'list', 'sorted', 'reversed') and seq.args[1]:
            x = alg.elem(alg.strip_wrap(seq), 0)
            term = alg.first(x, 1)
            if default is None:
                return term
            g = alg.nonempty(seq)
            return alg.vterm([(g, term), (alg.NOT(g), default)])
        return alg.fresh('unk', 'next')

    def isinstance_(self, t, c):
        alg = self.alg
        if c.op == 'seq':
            return alg.OR(*[self.isinstance_(t, i.term) for i in c.args[1]])
        ty = alg.typeof(t)
        if c.op == 'class':
            if t.op in ('rec', 'new'):
                return 1 if c.args[0] in t.args[0].mro() else 0
            if ty and ty[0] == 'cls':
                if c.args[0] in ty[1].mro():
                    return 1
                if ty[1] not in c.args[0].mro():
                    return 0
            return alg.atom(alg.mk('isinstance', t, c))
        if c.op == 'extref':
            n = c.args[0]
            kinds = {'str': 'str', 'int': 'int', 'list': 'list', 'bool': 'bool', 'set': 'set', 'dict': 'dict'}
            if n in kinds and t.op in ('seq', 'const', 'concat', 'lin', 'rec', 'map', 'bool'):
                k = {'concat': 'str', 'lin': 'int', 'map': 'dict', 'rec': 'rec', 'bool': 'bool'}.get(t.op) or \
                    (t.args[0] if t.op == 'seq' else {'str': 'str', 'int': 'int', 'bool': 'bool'}.get(t.args[0], '?'))
                return 1 if k == kinds[n] else 0
            if n in kinds and ty and ty[0] in ('str', 'list', 'int', 'set', 'dict'):
                return 1 if ty[0] == kinds[n] else 0
            if n in ('str', 'list') and ty and ty[0] == 'union':
                members = [x[0] for x in ty[1] if x]
                if sorted(members) == ['list', 'str']:
                    a = alg.atom(alg.mk('isinstance', t, alg.mk('extref', 'str')))
                    return a if n == 'str' else alg.NOT(a)
        return alg.atom(alg.mk('isinstance', t, c))

    def e_FormattedValue(self, e, st):
        return self.eval(e.value, st)

    def e_Await(self, e, st):
        raise Unsupported('await')

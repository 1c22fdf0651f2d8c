"""
Obligations, evidence and verdicts common to all checks.
"""

import ast
import json
import os
import sys
import time
import traceback
from types import SimpleNamespace

from .alg import Alg, show
from .bdd import TooBig
from .compare import Comparer, NEvent, OPAQUE_OPS, counterpart, normalise, subterms, vocabulary
from .engine import Engine, Unsupported, State
from .front import AnalysisError, Program, Vanished, as_generator

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# Functions that the references ask for flags of dictionary entries in, in one way and in another, and how many times
ASKED = {
    'has_flag': {'algo.lookup:Lookup.__call__': 1, 'algo.lookup:Lookup.is_bad_compound': 2, 'algo.suggest:Suggest.suggestions': 2},
    'homonyms': {'algo.lookup:Lookup.affix_forms': 3, 'algo.lookup:Lookup.compounds_by_rules': 1},
}

# Functions that are never inlined into their callers: analysed on their own
BOUNDARY = {
    'algo.lookup:Lookup.__call__', 'algo.lookup:Lookup.break_word', 'algo.lookup:Lookup.good_forms',
    'algo.lookup:Lookup.affix_forms', 'algo.lookup:Lookup.compound_forms', 'algo.lookup:Lookup.produce_affix_forms',
    'algo.lookup:Lookup.desuffix', 'algo.lookup:Lookup.deprefix', 'algo.lookup:Lookup.is_good_form',
    'algo.lookup:Lookup.compounds_by_flags', 'algo.lookup:Lookup.compounds_by_rules',
    'algo.lookup:Lookup.is_bad_compound',
    'algo.suggest:Suggest.__call__', 'algo.suggest:Suggest.suggestions', 'algo.suggest:Suggest.edit_suggestions',
    'algo.suggest:Suggest.edits', 'algo.suggest:Suggest.ngram_suggestions', 'algo.suggest:Suggest.phonet_suggestions',
    'algo.ngram_suggest:ngram_suggest', 'algo.phonet_suggest:phonet_suggest',
    'algo.permutations:replchars', 'algo.permutations:mapchars', 'algo.permutations:swapchar',
    'algo.permutations:longswapchar', 'algo.permutations:badcharkey', 'algo.permutations:extrachar',
    'algo.permutations:forgotchar', 'algo.permutations:movechar', 'algo.permutations:badchar',
    'algo.permutations:doubletwochars', 'algo.permutations:twowords',
    'algo.capitalization:Casing.guess', 'algo.capitalization:Casing.lower', 'algo.capitalization:Casing.upper',
    'algo.capitalization:Casing.capitalize', 'algo.capitalization:Casing.lowerfirst',
    'algo.capitalization:Casing.variants', 'algo.capitalization:Casing.corrections',
    'algo.capitalization:Casing.coerce',
    'data.aff:ConvTable.__call__', 'data.aff:CompoundRule.fullmatch', 'data.aff:CompoundRule.partial_match',
    'data.aff:CompoundPattern.match', 'algo.trie:Trie.lookup', 'algo.trie:Trie.put', 'algo.trie:Trie.set',
    'algo.trie:Trie.traverse',
    'data.dic:Dic.append', 'data.dic:Dic.homonyms', 'data.dic:Dic.has_flag',
}


class Obligation:
    def __init__(self, rule, subject, status, detail='', where=None, partial=False):
        self.partial = partial      # follows from the comparison with the whole reference
        self.rule = rule            # what is required
        self.subject = subject      # construct: function, call site...
        self.status = status        # ok | bad | unknown
        self.detail = detail
        self.where = where

    @property
    def key(self):
        return f'{self.rule} @ {self.subject}'


class Run:
    """Analysed function: events and the returned value"""

    def __init__(self, check, func, eng, events, value, state, args):
        self.check = check
        self.func = func
        self.eng = eng
        self.alg = eng.alg
        self.events = events
        self.value = value
        self.state = state
        self.args = args

    def of(self, *kinds):
        return [e for e in self.events if e.kind in kinds]


class Check:
    def __init__(self, pid, title, explanation):
        self.pid = pid
        self.title = title
        self.explanation = explanation
        self.started = time.time()
        self.obligations = []
        self.functions = set()
        self.counts = {}
        self.assumptions = []
        self.prog = Program()
        self.alg = self.new_alg()
        self.spec_modules = {}
        self.runs = 0
        self.events_seen = 0
        self.compared = set()
        self.partial = False
        self.vanished = set()
        self.elsewhere = None

    def new_alg(self):
        alg = Alg(self.prog)
        alg.nonnull_opts.add('data.aff:Aff')
        return alg

    def fresh(self):
        """new algebra: for independent comparisons"""
        self.alg = self.new_alg()
        return self.alg

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    # -- running the analysis

    def spec(self, name):
        """reference function: 'module:function'"""
        mod, fn = name.split(':')
        if mod not in self.spec_modules:
            path = os.path.join(ROOT, 'specs', mod + '.py')
            self.spec_modules[mod] = self.prog.add_spec_module('spec.' + mod, path, open(path, encoding='utf-8').read())
        f = self.prog.functions.get(f'spec.{mod}:{fn}')
        if f is None:
            raise AnalysisError(f'no reference {name}')
        return f

    def asked_elsewhere(self):
        """
        Flags of entries are asked for in functions other than those that the references ask in: has_flag and a search among
        homonyms stand for one another then. Where they don't, has_flag is one question, and differences are told better
        """
        if self.elsewhere is None:
            found = []
            for f in self.prog.functions.values():
                if f.qual.startswith(('spec.', 'data.dic:')):
                    continue
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ASKED:
                        found.append((x.func.attr, f.qual))
            other = {name for name, q in found if q not in ASKED[name]}
            # a question asked in the other way is one question less in this one
            fewer = {name for name in ASKED if sum(x == name for x, _ in found) < sum(ASKED[name].values())}
            self.elsewhere = bool('homonyms' in other and 'has_flag' in fewer or 'has_flag' in other)
        return self.elsewhere

    def analyse(self, func, args=None, inline=(), opaque=(), watch=(), virtual=False, types=None,
                generalise=None, history=False, callback=None):
        """analyses function of program (or reference); args: list or dict of terms"""
        if isinstance(func, str):
            func = self.spec(func[5:]) if func.startswith('spec:') else self.prog.func(func)
        op = (BOUNDARY | set(opaque)) - set(inline) - {func.qual}
        eng = Engine(self.prog, self.alg, opaque=op, inline_virtual=virtual)
        eng.watch = set(watch)
        if func.qual != 'data.dic:Dic.has_flag' and self.asked_elsewhere():
            eng.contracts = {'data.dic:Dic.has_flag': self.spec('data:has_flag')}
        eng.history = history
        eng.callback_type = ('cls', self.prog.cls(callback)) if callback else None
        eng.top = func.qual
        eng.generalise = generalise or {}
        pos, kwonly, var, kw = func.params
        names = pos + kwonly + ([var] if var else []) + ([kw] if kw else [])
        given = {}
        if isinstance(args, dict):
            given = dict(args)
        elif args is not None:
            given = dict(zip(names, args))
        defaults = func.defaults()
        full = {}
        for p in names:
            if p in given:
                full[p] = given[p]
            elif func.classmethod and p == pos[0]:
                full[p] = self.alg.mk('class', func.cls)
            else:
                ty = (types or {}).get(p) or eng.param_type(func, p)
                full[p] = self.alg.sym(p, ty)
        st, val = eng.run(func, full)
        self.runs += 1
        self.functions |= {q for q in eng.inlined if not q.startswith('spec.')}
        self.events_seen += len(eng.events)
        run = Run(self, func, eng, eng.events, val, st, full)
        run.again = lambda gen: self.analyse(func, full, inline, opaque, watch, virtual, types, gen, history, callback)
        return run

    def pair(self, code, spec, inline=(), opaque=(), args=None, virtual=False, watch=(), types=None, spec_inline=None,
             history=False, callback=None):
        """analyses the code and its reference with the same arguments"""
        f = self.prog.func(code)
        s = self.spec(spec)
        if s.is_generator and not f.is_generator and not f.is_lambda:
            f = as_generator(f)
        spos, skw, svar, skwarg = s.params
        pos, kwonly, var, kw = f.params
        names = pos + kwonly
        full = dict(args() if callable(args) else args or {})
        eng = Engine(self.prog, self.alg)
        # parameters unknown to the reference keep their defaults
        known = len(spos)
        defaults = f.defaults()
        for i, p in enumerate(names):
            if p in full:
                continue
            in_spec = p in spos + skw or (p in pos and i < known)
            if not in_spec and p in defaults:
                full[p] = eng.const_expr(defaults[p], f.module)
        run = self.analyse(f, full, inline=inline, opaque=opaque, virtual=virtual, watch=watch, types=types,
                           history=history, callback=callback)
        sargs = {}
        for i, p in enumerate(spos):
            if p in run.args:
                sargs[p] = run.args[p]
            elif i < len(pos):
                sargs[p] = run.args[pos[i]]
        for p in skw:
            if p in run.args:
                sargs[p] = run.args[p]
        ref = self.analyse(s, sargs, inline=inline if spec_inline is None else spec_inline,
                           opaque=opaque, virtual=virtual, watch=watch, history=history, callback=callback)
        return run, ref

    # -- obligations

    def add(self, rule, subject, status, detail='', where=None):
        self.obligations.append(Obligation(rule, subject, status, detail, where, self.partial))

    def guarded(self, rule, subject, f):
        """runs the part of check; what the analysis can't handle makes it undecided"""
        try:
            return f()
        except Unsupported as e:
            self.add(rule, subject, 'unknown', f'construct outside of analysis: {e}')
        except TooBig:
            self.add(rule, subject, 'unknown', 'conditions too large for analysis')
        except RecursionError:
            self.add(rule, subject, 'unknown', 'too deep for analysis')
        except Vanished as e:
            self.vanished.add(str(e))
            self.add(rule, subject, 'unknown', f'{e}')
        except AnalysisError:
            raise
        except Exception as e:
            self.add(rule, subject, 'unknown', f'analysis failed: {type(e).__name__}: {e} '
                     f'({traceback.format_exc().strip().splitlines()[-3].strip()})')
        return None

    def assume_guard(self, run, assume):
        """condition (reference predicate over the parameters of function) as guard"""
        if assume is None:
            return 1
        s = self.spec(assume)
        r = self.analyse(s, {p: run.args[p] for p in s.params[0] if p in run.args})
        return r.eng.truth(r.value)

    def covered(self, rule, subject, comparer, mine, others, what, side, assume=1):
        """every event of `mine` must be covered by `others`"""
        res = comparer.check_cover(mine, others, None, side, assume)
        for e, status, missing in res:
            where = e.where
            if status == 'ok':
                self.add(rule, subject, 'ok', show(e.term)[:160], where)
            else:
                self.add(rule, subject, status, f'{what}: {show(e.term)[:300]} when {comparer.describe(missing)[:900]}',
                         where)
        return res

    def same_events(self, name, run, ref, kinds=('yield',), assume=None, directions=('sound', 'complete'), keep=None,
                    depth=0, ordered=False):
        alg = self.alg
        c = Comparer(run.eng)
        if ordered:
            self.order(name, run, ref)
        if not depth:
            self.raises(run, ref, self.assume_guard(run, assume))
        start = len(self.obligations)
        for kind in kinds:
            mine = normalise(run.eng, [e for e in run.events if e.kind == kind and (keep is None or keep(e))])
            refs = normalise(ref.eng, [e for e in ref.events if e.kind == kind and (keep is None or keep(e))])
            c.ref_vocab = vocabulary(subterms(alg, [e.term for e in refs] + [alg.B(e.guard) for e in refs]))
            g = self.assume_guard(run, assume)
            subject = run.func.qual
            if 'sound' in directions:
                self.covered(f'{name}: nothing but required', subject, c, mine, refs,
                             f'{kind} not allowed by the rule', 'events', g)
            if 'complete' in directions:
                self.covered(f'{name}: everything required', subject, c, refs, mine,
                             f'required {kind} is missing', 'others', g)
            self.count(f'{kind} events compared', len(mine))
            if depth < 3:
                for (f, g), pairs in c.hypotheses.items():
                    self.recursion(name, run, ref, f, g, pairs, kind, assume, directions, keep, depth)
        if 'yield' in kinds:
            decided = all(o.status != 'unknown' for o in self.obligations[start:])
            start = len(self.obligations)
            self.stops(name, run, ref, self.assume_guard(run, assume), directions)
            for o in self.obligations[start:]:
                if o.status == 'bad' and not decided:
                    o.status = 'unknown'
                    o.detail = 'not decided: values are given in another way; ' + o.detail

    def stops(self, name, run, ref, assume, directions):
        """loops that yield are left early only as the reference leaves them"""
        get = lambda r: [e for e in r.events if e.kind == 'stop']
        mine, refs = get(run), get(ref)
        if not mine and not refs:
            return
        alg = self.alg
        c = Comparer(run.eng)
        subject = run.func.qual
        c.ref_vocab = vocabulary(subterms(alg, [e.term for e in ref.events] + [alg.B(e.guard) for e in ref.events]))
        if 'complete' in directions:
            left = [e for e in mine if not self.harmless_stop(run, e)]
            self.covered(f'{name}: loop is left early only as required', subject, c, normalise(run.eng, left),
                         normalise(ref.eng, refs), 'nothing is given after', 'events', assume)
        if 'sound' in directions:
            left = [e for e in refs if not self.harmless_stop(ref, e)]
            self.covered(f'{name}: loop is left where required', subject, c, normalise(ref.eng, left),
                         normalise(run.eng, mine), 'something may be given after', 'others', assume)
        self.count('early exits compared', len(mine))

    def order(self, name, run, ref):
        """what both give is given in the same order"""
        alg = self.alg
        mine, refs = run.of('yield'), ref.of('yield')
        places = {}
        for k, e in enumerate(refs):
            places.setdefault(e.term, []).append(k)
        n = 0
        for i, late in enumerate(mine):
            for early in mine[:i]:
                if early.term is late.term or early.term not in places or late.term not in places:
                    continue
                n += 1
                if min(places[early.term]) > max(places[late.term]) and alg.AND(early.guard, late.guard):
                    self.add(f'{name}: order', run.func.qual, 'bad',
                             f'{show(early.term)[:200]} is given before {show(late.term)[:200]}', early.where)
        self.count('pairs of values with order compared', n)
        self.add(f'{name}: order', run.func.qual, 'ok' if n else 'unknown', f'{n} pairs')

    def sorting(self, name, run, ref):
        """sequences are put in the same order as those of the reference"""
        mine = list(dict.fromkeys(run.eng.sorts))
        refs = list(dict.fromkeys(ref.eng.sorts))
        if not refs:
            raise AnalysisError('reference sorts nothing')
        self.count('sortings compared', len(mine))
        where = f'{run.func.path}:{run.func.node.lineno}'
        if len(mine) == len(refs) == 1:
            self.same_terms(name, run, ref, mine[0], refs[0])
        elif mine:
            status = 'ok' if set(refs) <= set(mine) else 'unknown'
            self.add(name, run.func.qual, status, f'{len(mine)} sortings', where)
        else:
            alg = self.alg
            roots = lambda r: subterms(alg, [e.term for e in r.events] + [alg.B(e.guard) for e in r.events])
            other = Comparer(run.eng).unknown_vocab(roots(run), roots(ref), 'events')
            self.add(name, run.func.qual, 'unknown' if other else 'bad', f'nothing is sorted {other or ""}', where)

    def harmless_stop(self, run, stop):
        """leaving the loop early is the same as skipping all the rest of its elements"""
        alg = self.alg
        x = stop.binders[-1]
        inside = [e for e in run.events if e.kind == 'yield' and x in e.binders]
        if len({e.term for e in inside}) == 1 and x not in inside[0].term.fv and \
                alg.AND(stop.guard, alg.NOT(alg.OR(*[e.guard for e in inside]))) == 0:
            # the same value would only be given again
            return True
        for e in run.events:
            if e.kind == 'yield' and x in e.binders and alg.AND(e.guard, stop.guard):
                return False
        atoms = [alg.atoms[v] for v in alg.bdd.support(stop.guard)]
        # positions only grow
        return all(a.op == 'le' for a in atoms if x in a.fv) and (
            not any(x in a.fv for a in atoms) or x.args[0].op == 'ext' and x.args[0].args[0] in ('range', 'enumerate'))

    def recursion(self, name, run, ref, f, g, pairs, kind, assume, directions, keep, depth):
        """recursive functions taken for the same: compared for any arguments"""
        key = (run.func.qual, kind, frozenset([f.qual, g.qual]), assume, directions)
        if key in self.compared:
            return
        self.compared.add(key)
        if not g.qual.startswith('spec.') and f.qual.startswith('spec.'):
            f, g = g, f
            pairs = [(k, n) for n, k in pairs]
        eng = Engine(self.prog, self.alg)
        gen_f, gen_g = {}, {}
        for n, k in pairs:
            if not g.qual.startswith('spec.') and k in run.args:
                t = run.args[k]
            else:
                t = self.alg.sym(f'any {n}', eng.param_type(f, n))
            gen_f[n] = gen_g[k] = t
        run2 = run.again({f.qual: gen_f})
        ref2 = ref.again({g.qual: gen_g})
        if kind == 'value':
            self.same_value(f'{name} ({f.name})', run2, ref2, directions, assume, keep, depth + 1)
            return
        self.same_events(f'{name} ({f.name})', run2, ref2, (kind,), assume, directions, keep, depth + 1)

    def raises(self, run, ref, assume=1):
        """the code raises only where the reference does"""
        if (run.func.qual, 'raise') in self.compared:
            return
        mine = [e for e in run.events if e.kind == 'raise']
        if not mine:
            return
        self.compared.add((run.func.qual, 'raise'))
        refs = normalise(ref.eng, [e for e in ref.events if e.kind == 'raise'])
        c = Comparer(run.eng)
        c.ref_vocab = vocabulary(subterms(self.alg, [self.alg.B(e.guard) for e in refs]))
        self.covered('raises only as required', run.func.qual, c, normalise(run.eng, mine), refs,
                     'raises though the rule gives an answer', 'events', assume)

    def truth_pair(self, name, run, ref, directions=('sound', 'complete'), assume=None):
        """boolean results: code true => reference true, and back"""
        alg = self.alg
        c = Comparer(run.eng)
        a = run.eng.truth(run.value)
        b = ref.eng.truth(ref.value)
        g = self.assume_guard(run, assume)
        self.raises(run, ref, g)
        g = alg.AND(g, run.state.pc, ref.state.pc)
        self.implication(f'{name}: true only as required', run.func.qual, c, alg.AND(a, g), b, a, b,
                         'accepts though the rule says no') if 'sound' in directions else None
        self.implication(f'{name}: true whenever required', run.func.qual, c, alg.AND(b, g), a, a, b,
                         'refuses though the rule says yes') if 'complete' in directions else None

    def same_value(self, name, run, ref, directions=('sound', 'complete'), assume=None, pick=None, depth=0):
        """returned values (or what `pick` takes from the run)"""
        g = self.assume_guard(run, assume)
        value = pick or (lambda r: r.value)
        if not depth:
            self.raises(run, ref, g)
        g = self.alg.AND(g, run.state.pc, ref.state.pc)
        c = self.same_terms(name, run, ref, value(run), value(ref), g, directions)
        if depth < 3:
            for (f, k), pairs in c.hypotheses.items():
                self.recursion(name, run, ref, f, k, pairs, 'value', assume, directions, pick, depth)

    def same_state(self, name, run, ref, attrs=None, assume=None):
        """attributes of `self` after the function"""
        g = self.assume_guard(run, assume)
        me = run.args[run.func.params[0][0]]
        mine = {k[1]: v for k, v in run.state.heap.items() if k[0] is me}
        refs = {k[1]: v for k, v in ref.state.heap.items() if k[0] is me}
        for attr in sorted(refs):
            if attrs is not None and attr not in attrs:
                continue
            if attr not in mine:
                self.add(f'{name}: attribute {attr}', run.func.qual, 'bad', 'is not set by the function',
                         f'{run.func.path}:{run.func.node.lineno}')
                continue
            self.same_terms(f'{name}: attribute {attr}', run, ref, mine[attr], refs[attr], g)
        for attr in sorted(set(mine) - set(refs)):
            if attrs is None:
                self.count('attributes set beyond the reference')

    def same_attr(self, name, run, ref, param, attr, assume=None):
        """attribute of the object passed as the parameter, after the function"""
        g = self.assume_guard(run, assume)
        me = run.args[param]
        mine = {k[1]: v for k, v in run.state.heap.items() if k[0] is me}
        refs = {k[1]: v for k, v in ref.state.heap.items() if k[0] is me}
        if attr not in refs:
            raise AnalysisError(f'reference does not set {param}.{attr}')
        if attr not in mine:
            self.add(f'{name}: {param}.{attr}', run.func.qual, 'bad', 'is not changed by the function', run.func.where())
            return
        self.same_terms(f'{name}: {param}.{attr}', run, ref, mine[attr], refs[attr], g)

    def same_object(self, name, run, ref, cls):
        """attributes of the objects of the class created by the function, after it"""
        objects = lambda r: {k: v for k, v in r.state.heap.items() if k[0].op in ('rec', 'new') and k[0].args[0].qual == cls}
        mine, refs = objects(run), objects(ref)
        if not refs:
            raise AnalysisError(f'reference changes no object of {cls}')
        for k in sorted(refs, key=lambda k: k[1]):
            if k not in mine:
                other = [x for x in mine if x[1] == k[1]]
                status = 'unknown' if other or any(run.value is None or x.op in OPAQUE_OPS for x in subterms(self.alg, [run.value])) else 'bad'
                self.add(f'{name}: {cls}.{k[1]}', run.func.qual, status, 'is not changed by the function', run.func.where())
                continue
            self.same_terms(f'{name}: {cls}.{k[1]}', run, ref, mine[k], refs[k], 1)

    def declared(self, name, cls, attr, want):
        """value the class declares for its attribute"""
        cls = self.prog.cls(cls)
        fields = {f[0]: f for f in cls.all_fields()}
        eng = Engine(self.prog, self.alg)
        if attr in fields and len(fields[attr]) > 2 and fields[attr][2] is not None:
            node = fields[attr][2]
            mine = eng.field_default(cls, node)
        elif cls.const(attr):
            owner, node = cls.const(attr)
            mine = eng.const_expr(node, owner.module)
        else:
            self.add(f'{name}: declared', f'{cls.qual}.{attr}', 'unknown', 'is not declared with a value')
            return
        self.functions.add(cls.qual)
        place = SimpleNamespace(path=cls.module.relpath, node=node, qual=f'{cls.qual}.{attr}')
        self.same_terms(name, SimpleNamespace(eng=eng, func=place), None, mine, want)

    def reference_table(self, spec):
        """reference function that gives a table -> {name: value}"""
        r = self.analyse(self.spec(spec), {})
        return {i.term.args[0].args[1]: i.term.args[1] for i in r.value.args[0]}

    def same_terms(self, name, run, ref, mine, refs, assume=1, directions=('sound', 'complete')):
        alg = self.alg
        c = Comparer(run.eng)
        f = run.func
        where = f'{f.path}:{f.node.lineno}'
        ev = lambda t: [NEvent(g, x, where, f.qual, None, 'value', 0) for g, x in run.eng.alts(alg.given(t, assume))]
        a, b = ev(mine), ev(refs)
        c.ref_vocab = vocabulary(subterms(alg, [e.term for e in b] + [alg.B(e.guard) for e in b]))
        if 'sound' in directions:
            self.covered(f'{name}: value as required', f.qual, c, a, b, 'value differs from the required', 'events', assume)
        if 'complete' in directions:
            self.covered(f'{name}: required value given', f.qual, c, b, a, 'required value is not given', 'others', assume)
        self.count('values compared', len(a))
        return c

    def calls(self, run, qual):
        """terms of calls of function that isn't inlined, in everything the run has seen"""
        alg = self.alg
        roots = [e.term for e in run.events if e.term is not None] + [alg.B(e.guard) for e in run.events]
        roots += [x for e in run.events for x in e.binders]
        if run.value is not None:
            roots.append(run.value)
        return [t for t in subterms(alg, roots) if t.op in ('call', 'gen') and t.args[0].qual == qual]

    def called(self, run):
        """functions that are called and not looked into"""
        alg = self.alg
        roots = [e.term for e in run.events if e.term is not None] + [alg.B(e.guard) for e in run.events]
        roots += [x for e in run.events for x in e.binders]
        roots += [v for v in run.state.heap.values()]
        if run.value is not None:
            roots.append(run.value)
        return {t.args[0].qual for t in subterms(alg, roots) if t.op in ('call', 'gen') and
                t.args[0].qual in run.eng.opaque}

    def implication(self, rule, subject, comparer, p, q, code, ref, what, where=None, extra=()):
        alg = self.alg
        f = self.prog.functions.get(subject)
        where = where or (f'{f.path}:{f.node.lineno}' if f else None)
        missing = comparer.sat(alg.AND(p, alg.NOT(q)), extra)
        if missing == 0:
            self.add(rule, subject, 'ok', '', where)
            return True
        mine = subterms(alg, [alg.B(code)])
        others = subterms(alg, [alg.B(ref)])
        status = 'bad'
        reason = None
        op = [t for t in mine if t.op in OPAQUE_OPS and t not in others and not counterpart(t, others)] or \
             [t for t in others if t.op in OPAQUE_OPS and t not in mine and not counterpart(t, mine)]
        if op:
            status, reason = 'unknown', f'value not tracked ({show(op[0])[:80]})'
        else:
            u = comparer.unknown_vocab(mine, others, 'events')
            if u:
                status, reason = 'unknown', f'operations unknown to the rule: {u}'
            elif comparer.near.guards(code, ref) is None:
                status, reason = 'unknown', 'not decided: expressed in another way'
        self.add(rule, subject, status, f'{what} when {reason or comparer.describe(missing)[:900]}', where)
        return False

    def each(self, rule, run, pred, kinds=('yield',), assume=None, select=None, extra_args=None):
        """reference predicate over (parameters of the function..., value) must follow from guard of every event"""
        alg = self.alg
        c = Comparer(run.eng)
        s = self.spec(pred)
        n = 0
        g0 = self.assume_guard(run, assume)
        for e in normalise(run.eng, [e for e in run.events if e.kind in kinds]):
            if select is not None and not select(e):
                continue
            n += 1
            params = s.params[0] + s.params[1]
            args = {p: run.args[p] for p in params if p in run.args}
            args[params[-1]] = e.term
            args.update(extra_args or {})
            r = self.analyse(s, args)
            q = r.eng.truth(r.value)
            p = alg.AND(e.guard, g0)
            missing = c.sat(alg.AND(p, alg.NOT(q)), (e.term,))
            if missing == 0:
                self.add(rule, run.func.qual, 'ok', show(e.term)[:160], e.where)
                continue
            status, reason = 'bad', None
            mine = subterms(alg, [alg.B(e.guard), e.term])
            others = subterms(alg, [alg.B(q)])
            op = [t for t in mine if t.op in OPAQUE_OPS]
            op = [t for t in op if not counterpart(t, others)]
            if op:
                status, reason = 'unknown', f'value not tracked ({show(op[0])[:80]})'
            else:
                u = c.unknown_vocab(mine, others | subterms(alg, [alg.B(e2.guard) for e2 in run.events][:0]), 'events')
                if u and self.relevant_unknown(c, mine, others):
                    status, reason = 'unknown', f'operations unknown to the rule: {u}'
            self.add(rule, run.func.qual, status,
                     f'{show(e.term)[:300]} when {reason or c.describe(missing)[:900]}', e.where)
        return n

    def harmless(self, t, others):
        return False

    def relevant_unknown(self, c, mine, others):
        return False

    def require(self, rule, subject, cond, detail='', where=None):
        self.add(rule, subject, 'ok' if cond else 'bad', detail, where)
        return cond

    # -- verdict

    def downgrade(self):
        """requirements that are a part of the whole reference are violated only if the whole is"""
        full = {o.subject for o in self.obligations if o.status == 'bad' and not o.partial}
        for o in self.obligations:
            if o.partial and o.status == 'bad' and o.subject not in full:
                o.status = 'unknown'
                o.detail = 'not decided (comparison with the whole reference finds no difference): ' + o.detail

    def finish(self):
        tier = os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        known = load_known(self.pid)
        self.downgrade()
        bad = [o for o in self.obligations if o.status == 'bad']
        unknown = [o for o in self.obligations if o.status == 'unknown']
        new = []
        listed = []
        for o in bad:
            k = next((k for k in known if k and k in o.key), None)
            (listed if k else new).append(o)
        ev_dir = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence')
        os.makedirs(ev_dir, exist_ok=True)
        rules = {}
        for o in self.obligations:
            r = rules.setdefault(o.rule, {'obligations': 0, 'discharged': 0, 'undecided': 0, 'violated': 0})
            r['obligations'] += 1
            r[{'ok': 'discharged', 'bad': 'violated', 'unknown': 'undecided'}[o.status]] += 1
        coverage = {
            'explanation': self.explanation,
            'functions_analysed': len(self.functions),
            'functions': sorted(self.functions),
            'modules_parsed': len([m for m in self.prog.modules.values() if not m.name.startswith('spec.')]),
            'obligations': len(self.obligations),
            'discharged': len([o for o in self.obligations if o.status == 'ok']),
            'undecided': [{'rule': o.rule, 'subject': o.subject, 'where': o.where, 'why': o.detail[:400]}
                          for o in unknown],
            'rules': rules,
        }
        coverage.update({k.replace(' ', '_'): v for k, v in self.counts.items()})
        evidence = {
            'property': self.pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': coverage,
            'assumptions': self.assumptions,
            'violations': len(new),
            'wall_s': round(time.time() - self.started, 3),
        }
        with open(os.path.join(ev_dir, self.pid + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False)
        print(f'{self.pid}: {self.title}')
        print(f'  functions analysed: {len(self.functions)}, obligations: {len(self.obligations)}, '
              f'discharged: {coverage["discharged"]}, undecided: {len(unknown)}, violated: {len(bad)}')
        for o in unknown:
            print(f'  undecided: {o.rule} @ {o.subject} {o.where or ""}: {o.detail[:300]}')
        for o in listed:
            print(f'KNOWN-FINDING: property={self.pid} {o.key} {o.where or ""}: {o.detail[:300]}')
        replay = os.path.join(ev_dir, self.pid + '.violation.txt')
        if new:
            with open(replay, 'w') as f:
                for o in new:
                    f.write(f'{o.where or "?"}: {o.rule}\n  in {o.subject}\n  {o.detail}\n\n')
            for o in new:
                print(f'  {o.where or "?"}: {o.rule} -- {o.subject}: {o.detail}')
            print(f'VIOLATION property={self.pid} replay={replay}')
            return 1
        if os.path.exists(replay):
            os.remove(replay)
        if not self.obligations:
            raise AnalysisError('nothing was checked')
        if self.vanished and len(unknown) * 2 >= len(self.obligations):
            raise AnalysisError(f'{", ".join(sorted(self.vanished))}: too little is left to check')
        if len(unknown) == len(self.obligations):
            raise AnalysisError('nothing could be decided')
        return 0


def load_known(pid):
    path = os.path.join(ROOT, 'known_findings.txt')
    res = []
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line.startswith(f'known: property={pid} '):
                # known: property=ID key=<rule @ subject> ...
                if 'key=<' in line:
                    res.append(line.split('key=<', 1)[1].split('>', 1)[0])
    return res


def main(checks):
    if len(sys.argv) != 2 or sys.argv[1] not in checks:
        print('usage: check.py ID', sorted(checks))
        return 2
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    pid = sys.argv[1]
    try:
        return checks[pid]()
    except AnalysisError as e:
        print(f'{pid}: ANALYSIS ERROR: {e}')
        return 2
    except Exception:
        traceback.print_exc()
        print(f'{pid}: ANALYSIS ERROR: internal')
        return 2

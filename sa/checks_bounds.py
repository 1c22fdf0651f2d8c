"""
C04: items that queries take are there.
"""

from .bounds import Bounds, protected
from .compare import subterms
from .core import BOUNDARY, Check
from .front import AnalysisError, loc

A = 'algo.'
CASING = 'algo.capitalization:'

# analysed each on its own (their helpers -- together with them)
UNITS = sorted(BOUNDARY | {
    *(A + 'string_metrics:' + n for n in ('commoncharacters', 'leftcommonsubstring', 'ngram', 'lcslen')),
    *(A + 'ngram_suggest:' + n for n in ('filter_guesses', 'forms_for', 'root_score', 'rough_affix_score', 'precise_affix_score',
                                         'detect_threshold')),
    *(A + 'phonet_suggest:' + n for n in ('metaphone', 'final_score', 'root_score')),
    CASING + 'GermanCasing.lower', CASING + 'GermanCasing.guess', CASING + 'TurkicCasing.lower', CASING + 'TurkicCasing.upper',
    'dictionary:Dictionary.lookup', 'dictionary:Dictionary.suggest',
    A + 'lookup:AffixForm.is_base', A + 'lookup:AffixForm.has_affixes', A + 'lookup:AffixForm.all_affixes', A + 'lookup:AffixForm.flags',
    A + 'suggest:MultiWordSuggestion.stringify', A + 'suggest:Suggestion.replace', A + 'suggest:Suggest.use_dash',
    'data.aff:PhonetTable.Rule.match',
})

# what is called from outside: words may be any
ENTRIES = {'dictionary:Dictionary.lookup', 'dictionary:Dictionary.suggest', A + 'lookup:Lookup.__call__', A + 'suggest:Suggest.__call__'}

# functions that give an empty collection for some words
MAY_BE_EMPTY = {
    CASING + 'Casing.lower', CASING + 'Casing.capitalize', CASING + 'Casing.lowerfirst', 'data.dic:Dic.homonyms',
    *(A + 'lookup:Lookup.' + n for n in ('good_forms', 'affix_forms', 'compound_forms', 'produce_affix_forms', 'desuffix', 'deprefix',
                                         'compounds_by_flags', 'compounds_by_rules', 'break_word')),
    A + 'trie:Trie.lookup', A + 'ngram_suggest:forms_for', A + 'ngram_suggest:filter_guesses',
    *(A + 'permutations:' + n for n in ('replchars', 'mapchars', 'swapchar', 'longswapchar', 'badcharkey', 'extrachar', 'forgotchar',
                                        'movechar', 'badchar', 'doubletwochars', 'twowords')),
}

# settings that may be empty texts
EMPTY_TEXTS = {'KEY', 'TRY', 'left_stem', 'right_stem', 'left_flag', 'right_flag', 'add', 'strip'}

# entries of the dictionary are any texts, also with spaces and longer than the word asked
ANY_TEXTS = {A + 'suggest:Suggest.ngram_suggestions', A + 'suggest:Suggest.phonet_suggestions', CASING + 'Casing.coerce'}

# the word is not empty when the other parameter is set (which the analysis of one function doesn't see)
RELATED = {A + 'lookup:Lookup.affix_forms': 'compoundpos', A + 'lookup:Lookup.produce_affix_forms': 'compoundpos',
           A + 'lookup:Lookup.is_good_form': 'compoundpos', A + 'lookup:Lookup.compounds_by_flags': 'depth',
           A + 'lookup:Lookup.compounds_by_rules': 'prev_parts'}

OPTIONS = {'algo.suggest:Suggest.suggestions': dict(history=True, callback='algo.suggest:Suggestion')}


def assumed(qual, param=None):
    """what is never empty in the function (what its callers guarantee)"""
    def f(t):
        if t.op == 'sym':
            return t.args[0] == param
        if qual == 'algo.lookup:Lookup.is_bad_compound':
            # compounds are made of at least two parts, each of them is found in the dictionary
            return t.op == 'attr' and t.args[1] in ('parts', 'text')
        return False
    return f


def c04():
    c = Check('C04', 'No query fails with an index or key error',
              'Bounds analysis: every place where an item is taken by position or by key, or the first of possibly empty sequence is '
              'taken, in the functions reached from queries. Position must be inside of the sequence by the linear facts that follow '
              'from the conditions of the place (guarded value-flow analysis), ranges, searches and recurrences of loops.')
    units = [q for q in UNITS if q in c.prog.functions]
    if len(units) < len(UNITS) // 2:
        raise AnalysisError('functions to analyse are gone: ' + ', '.join(q for q in UNITS if q not in units))
    found = {}
    for name in ('first_letter', 'pairs', 'checked'):
        c.fresh()
        run = c.analyse('spec:witness:' + name, watch=('index',))
        found[name] = sorted({Bounds(run).check(e)[0] for e in run.events if e.kind == 'index'})
    if found != {'first_letter': ['bad'], 'pairs': ['bad', 'ok'], 'checked': ['ok']}:
        raise AnalysisError(f'examples are not recognised: {found}')
    c.count('examples recognised', len(found))
    runs, needs = {}, {}
    for q in units:
        c.fresh()
        c.guarded('items taken are there', q, lambda: unit(c, q, units, runs, needs))
    left_to_callers(c, runs, needs)
    if c.counts.get('items taken', 0) < 30:
        raise AnalysisError(f"only {c.counts.get('items taken', 0)} items taken are found: the analysis doesn't see them")
    c.assumptions += ['COMPOUNDMIN is at least 1 (the reader of the affix file keeps it so)',
                      'parts of a compound and their texts are not empty']
    return c.finish()


def bounds_of(q, run, param=None):
    return Bounds(run, assumed(q, param), MAY_BE_EMPTY, CASING + 'Casing.guess', [CASING + 'Casing.lower'], empty=EMPTY_TEXTS,
                  texts=ANY_TEXTS, numbers=['COMPOUNDMIN'])


def unit(c, q, units, runs, needs):
    run = runs[q] = c.analyse(q, opaque=set(units) - {q}, watch=('index', 'call'), **OPTIONS.get(q, {}))
    bounds = bounds_of(q, run)
    for e in run.events:
        if e.kind == 'index':
            c.count('items taken')
            verdict, detail = ('ok', 'the error is caught') if protected(e) else bounds.check(e)
            if verdict == 'bad' and q in RELATED and any(related(x, RELATED[q]) for v in c.alg.bdd.support(e.guard)
                                                         for x in subterms(c.alg, [c.alg.atoms[v]])):
                if not any(x.op == 'elem' for x in subterms(c.alg, [e.term])):
                    verdict = 'unknown'
            subject = f'{e.func.qual if e.func else q}: {c_text(e)}'
            if verdict == 'bad':
                param = guaranteed(q, run, lambda b: b.check(e)[0])
                if param:
                    needs.setdefault((q, param), []).append((subject, detail, e.where))
                    continue
            c.add('items taken are there', subject, verdict, detail, e.where)


def guaranteed(q, run, decide):
    """parameter that must not be empty"""
    if q not in ENTRIES | ANY_TEXTS:
        for param, t in run.args.items():
            ty = run.eng.alg.typeof(t)
            if t.op == 'sym' and (ty is None or ty[0] == 'str') and param != 'self' and decide(bounds_of(q, run, param)) == 'ok':
                return param
    return None


def left_to_callers(c, runs, needs):
    """what functions need of the words they are given"""
    verdicts = {}
    work = list(needs)
    why = {n: [n] for n in needs}
    while work:
        need = work.pop()
        callee, param = need
        for q, run in runs.items():
            for e in run.events:
                if e.kind != 'call' or e.term.op not in ('call', 'gen') or not same_method(e.term.args[0].qual, callee):
                    continue
                word = dict(e.term.args[1]).get(param)
                if word is None:
                    continue
                c.count('words given that must not be empty')
                verdict, detail = bounds_of(q, run).given(e, word)
                if verdict == 'bad':
                    own = guaranteed(q, run, lambda b: b.given(e, word)[0])
                    if own:
                        up = (q, own)
                        if up not in why:
                            work.append(up)
                        why.setdefault(up, [])
                        why[up] += [x for x in why[need] if x not in why[up]]
                        continue
                if verdict != 'ok':
                    for x in why[need]:
                        if verdicts.get(x, ('', ''))[0] != 'bad':
                            verdicts[x] = verdict, f'; {q} gives it an empty word at {e.where}: {detail}'
    for n, items in needs.items():
        verdict, more = verdicts.get(n, ('ok', 'words given to it are not empty'))
        for subject, detail, where in items:
            c.add('items taken are there', subject, verdict, detail + more if verdict != 'ok' else more, where)


def same_method(a, b):
    """the method, or the overridden one"""
    return a == b or a.startswith(CASING) and b.startswith(CASING) and a.split('.')[-1] == b.split('.')[-1]


def related(t, name):
    return t.op == 'sym' and t.args[0] == name


def c_text(e):
    import ast
    t = ast.unparse(e.node)
    return t if len(t) < 80 else t[:77] + '...'


CHECKS = {'C04': c04}

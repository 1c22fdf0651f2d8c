"""
Checks of the word checker: C05-C12.
"""

from .bdd import TooBig
from .core import Check
from .engine import Unsupported

L = 'algo.lookup:Lookup.'
RULE = ('Guarded value-flow analysis of the current source: every value a function can give, with the condition of '
        'giving it (decision diagram over program conditions, loops and generators closed as quantifiers), is compared '
        'with the reference for the property by implication of conditions; each difference is a violation at the '
        'statement that gives the value. ')


def compare(c, name, code, spec, kw, how):
    """compares the code with its reference; functions only one of them calls are looked into if they differ"""
    def go():
        inline = tuple(kw.pop('inline', ()))
        first = None
        for _ in range(3):
            start = len(c.obligations)
            c.fresh()
            seen = set(c.compared)
            try:
                run, ref = c.pair(code, spec, inline=inline, **kw)
                how(run, ref)
            except (Unsupported, TooBig, RecursionError):
                if first is None:
                    raise
                break
            if not any(o.status != 'ok' for o in c.obligations[start:]):
                return
            if first is None:
                if not any(o.status == 'bad' for o in c.obligations[start:]):
                    return
                first = c.obligations[start:]
            more = (c.called(run) ^ c.called(ref)) - set(inline) - {code}
            if not more:
                break
            del c.obligations[start:]
            c.compared = seen
            inline += tuple(sorted(more))
        c.obligations[start:] = first
    c.guarded(name, code, go)


def events(c, name, code, spec, **kw):
    """all the values yielded are exactly those of the reference"""
    opts = {k: kw.pop(k) for k in ('assume', 'directions', 'kinds', 'keep', 'ordered') if k in kw}
    compare(c, name, code, spec, kw, lambda run, ref: c.same_events(name, run, ref, **opts))


def truth(c, name, code, spec, **kw):
    opts = {k: kw.pop(k) for k in ('assume', 'directions') if k in kw}
    compare(c, name, code, spec, kw, lambda run, ref: c.truth_pair(name, run, ref, **opts))


def value(c, name, code, spec, **kw):
    opts = {k: kw.pop(k) for k in ('assume', 'directions') if k in kw}
    compare(c, name, code, spec, kw, lambda run, ref: c.same_value(name, run, ref, **opts))


def state(c, name, code, spec, **kw):
    opts = {k: kw.pop(k) for k in ('assume', 'attrs') if k in kw}
    compare(c, name, code, spec, kw, lambda run, ref: c.same_state(name, run, ref, **opts))


def each(c, name, code, preds, **kw):
    """what is given satisfies the requirements"""
    def go():
        c.fresh()
        run = c.analyse(code)
        c.partial = True
        for pred in preds:
            n = c.each(f'{name}: {pred.split(":")[1]}', run, pred, **kw)
            c.count('values judged', n)
            if not n:
                c.require(f'{name}: values are given', code, False, 'function gives nothing to judge')
    c.guarded(name, code, go)
    c.partial = False


def clauses(c, name, code, sound=(), complete=()):
    """boolean function: true only with `sound` clauses; true whenever (assumption, clause...) of `complete` hold"""
    def go():
        from .compare import Comparer
        c.fresh()
        run = c.analyse(code)
        got = run.eng.truth(run.value)
        cmp = Comparer(run.eng)
        c.partial = True
        for clause in sound:
            want = c.assume_guard(run, clause)
            c.implication(f'{name}: true only with {clause.split(":")[1]}', code, cmp, got, want, got, want,
                          'accepts')
        for group in complete:
            want = c.alg.AND(*[c.assume_guard(run, g) for g in group])
            c.implication(f'{name}: true with {", ".join(g.split(":")[1] for g in group)}', code, cmp, want, got, got,
                          want, 'refuses')
    c.guarded(name, code, go)
    c.partial = False


def no_forbidden_use(c, code):
    """forms made with forbidden words allowed are only for refusing"""
    def go():
        c.fresh()
        run = c.analyse(code)
        n = 0
        c.partial = True
        for t in c.calls(run, L + 'affix_forms'):
            arg = dict(t.args[1]).get('with_forbidden')
            n += 1
            ok = arg is None or arg.op == 'const' and not arg.args[1]
            c.add('forms that make the word good exclude forbidden entries', code,
                  'ok' if ok else 'bad', 'affix_forms is asked for forbidden entries too', run.func.where())
        c.count('uses of affix_forms', n)
        if not n:
            c.require('forms come from affix_forms', code, False, 'no use of affix_forms is found')
    c.guarded('uses of affix_forms', code, go)
    c.partial = False


def settings(c, *names):
    """what the settings are when the affix file has no directive for them"""
    def go():
        c.fresh()
        table = c.reference_table('data:aff_defaults')
        for n in names or sorted(table):
            c.declared(f'{n} when not set', 'data.aff:Aff', n, table[n])
    c.guarded('settings not set', 'data.aff:Aff', go)


def turkic(c):
    def go():
        c.fresh()
        for n, t in c.reference_table('data:turkic_tables').items():
            c.declared(f'Turkic letters: {n}', 'algo.capitalization:TurkicCasing', n, t)
    c.guarded('Turkic letters', 'algo.capitalization:TurkicCasing', go)
    value(c, 'casing: Turkic lower', 'algo.capitalization:TurkicCasing.lower', 'casing:turkic_lower')
    value(c, 'casing: Turkic upper', 'algo.capitalization:TurkicCasing.upper', 'casing:turkic_upper')


def german(c):
    value(c, 'casing: German guess', 'algo.capitalization:GermanCasing.guess', 'casing:german_guess')
    value(c, 'casing: German lower', 'algo.capitalization:GermanCasing.lower', 'casing:german_lower')


def c05():
    c = Check('C05', 'Forbidden words are never accepted', RULE +
              'Reference: a word all of whose entries are forbidden is refused; every analysis given by affix_forms and '
              'compounds_by_rules is on an entry that is not forbidden; compound_forms gives nothing for a form of '
              'forbidden entry; entry tests of the word list are exact.')
    clauses(c, 'word checker refuses forbidden words', L + '__call__', sound=['lookup:call_not_forbidden'])
    truth(c, 'has_flag', 'data.dic:Dic.has_flag', 'data:has_flag')
    value(c, 'homonyms', 'data.dic:Dic.homonyms', 'data:homonyms')
    each(c, 'affixed forms', L + 'affix_forms', ['lookup:entry_not_forbidden', 'lookup:stem_not_forbidden'])
    each(c, 'compounds', L + 'compound_forms', ['lookup:word_not_forbidden_form'])
    each(c, 'compounds by rules', L + 'compounds_by_rules', ['lookup:part_not_forbidden'])
    no_forbidden_use(c, L + 'good_forms')
    no_forbidden_use(c, L + 'compounds_by_flags')
    truth(c, 'word checker', L + '__call__', 'lookup:call')
    events(c, 'forms of the word', L + 'good_forms', 'lookup:good_forms')
    events(c, 'forms on entries', L + 'affix_forms', 'lookup:affix_forms')
    events(c, 'compounds', L + 'compound_forms', 'lookup:compound_forms')
    events(c, 'parts by flags', L + 'compounds_by_flags', 'lookup:compounds_by_flags')
    events(c, 'parts by rules', L + 'compounds_by_rules', 'lookup:compounds_by_rules')
    state(c, 'keys of the entry', 'data.dic:Dic.append', 'data:dic_append')
    return c.finish()


def affix_regexps(c):
    state(c, 'prefix expressions', 'data.aff:Prefix.__post_init__', 'data:prefix')
    state(c, 'suffix expressions', 'data.aff:Suffix.__post_init__', 'data:suffix')


def c06():
    c = Check('C06', 'Affixes are applied only as the affix file allows', RULE +
              'Reference: analyses with affixes (desuffix, deprefix, their combination), the flags clause of the '
              'form check, forms joined with entries, expressions affixes are matched with.')
    events(c, 'suffixes taken off', L + 'desuffix', 'lookup:desuffix')
    events(c, 'prefixes taken off', L + 'deprefix', 'lookup:deprefix')
    events(c, 'affixes combined', L + 'produce_affix_forms', 'lookup:produce_affix_forms')
    clauses(c, 'affixes belong to entry', L + 'is_good_form', sound=['lookup:in_dictionary', 'lookup:affixes_listed'],
            complete=[('lookup:unrestricted', 'lookup:affixes_listed')])
    events(c, 'forms joined with entries', L + 'affix_forms', 'lookup:affix_forms')
    truth(c, 'form is good', L + 'is_good_form', 'lookup:is_good_form')
    affix_regexps(c)
    value(c, 'reading affix', 'readers.aff:make_affix', 'readers:affix',
          opaque=['readers.aff:Context.parse_flags', 'readers.aff:Context.split_flags'])
    return c.finish()


def c07():
    c = Check('C07', 'Restriction flags on stand-alone words are honoured', RULE +
              'Reference: clauses of the form check for stand-alone words, and the sharp-s rule.')
    cl = ['lookup:' + n for n in ('keepcase_ok', 'needaffix_ok', 'circumfix_ok', 'onlyincompound_ok')]
    clauses(c, 'restriction flags', L + 'is_good_form', sound=cl, complete=[('lookup:affixed_properly', *cl)])
    truth(c, 'form is good', L + 'is_good_form', 'lookup:is_good_form')
    events(c, 'forms of the word', L + 'good_forms', 'lookup:good_forms')
    settings(c, 'NEEDAFFIX', 'CIRCUMFIX', 'ONLYINCOMPOUND', 'KEEPCASE', 'CHECKSHARPS')
    events(c, 'forms checked', L + 'affix_forms', 'lookup:affix_forms')
    return c.finish()


def c08():
    c = Check('C08', 'Compound parts obey the compounding flags and limits', RULE +
              'Reference: cuts of the word by flags and by rules, the place-in-compound clause of the form check, '
              'affixes permitted inside compounds, matching of compound rules.')
    events(c, 'cuts by flags', L + 'compounds_by_flags', 'lookup:compounds_by_flags')
    events(c, 'cuts by rules', L + 'compounds_by_rules', 'lookup:compounds_by_rules')
    events(c, 'compounds considered', L + 'compound_forms', 'lookup:compound_forms')
    clauses(c, 'place in compound', L + 'is_good_form', sound=['lookup:compound_place_ok'],
            complete=[('lookup:usable_alone', 'lookup:compound_place_ok')])
    truth(c, 'form is good', L + 'is_good_form', 'lookup:is_good_form')
    events(c, 'forms of parts', L + 'affix_forms', 'lookup:affix_forms')
    events(c, 'affixes inside compounds', L + 'produce_affix_forms', 'lookup:produce_affix_forms')
    events(c, 'suffix flags required and forbidden', L + 'desuffix', 'lookup:desuffix')
    events(c, 'prefix flags required and forbidden', L + 'deprefix', 'lookup:deprefix')
    state(c, 'compound rule', 'data.aff:CompoundRule.__post_init__', 'data:compound_rule')
    truth(c, 'rule matches the whole', 'data.aff:CompoundRule.fullmatch', 'data:rule_fullmatch')
    truth(c, 'rule matches the beginning', 'data.aff:CompoundRule.partial_match', 'data:rule_partial_match')
    settings(c, 'COMPOUNDMIN', 'COMPOUNDWORDMAX', 'COMPOUNDRULE', 'COMPOUNDFLAG', 'COMPOUNDBEGIN', 'COMPOUNDMIDDLE',
             'COMPOUNDEND', 'COMPOUNDPERMITFLAG', 'COMPOUNDFORBIDFLAG', 'SIMPLIFIEDTRIPLE')
    return c.finish()


def c09():
    c = Check('C09', 'Compound vetoes are applied to every compound', RULE +
              'Reference: the vetoes at every boundary between parts, their use for all the compounds, boundary '
              'patterns.')
    truth(c, 'vetoes', L + 'is_bad_compound', 'lookup:is_bad_compound')
    each(c, 'compounds given', L + 'compound_forms', ['lookup:compound_not_bad'])
    events(c, 'compounds kept', L + 'compound_forms', 'lookup:compound_forms')
    truth(c, 'boundary pattern', 'data.aff:CompoundPattern.match', 'data:compound_pattern_match')
    state(c, 'boundary pattern parts', 'data.aff:CompoundPattern.__post_init__', 'data:compound_pattern')
    truth(c, 'has_flag', 'data.dic:Dic.has_flag', 'data:has_flag')
    return c.finish()


CASING = 'algo.capitalization:Casing.'


def casing(c, names):
    for n in names:
        # of the first letter: there is no answer if there is none
        kw = {'assume': 'casing:some_word'} if n in ('capitalize', 'lowerfirst') else {}
        value(c, f'casing: {n}', CASING + n, 'casing:' + n, **kw)


def c10():
    c = Check('C10', 'Case variants tried for a word follow its case type', RULE +
              'Reference: case type and variants of the word for every kind of casing, forms of every variant.')
    casing(c, ['guess', 'lower', 'upper', 'capitalize', 'lowerfirst', 'variants'])
    turkic(c)
    german(c)
    state(c, 'casing chosen', 'data.aff:Aff.__post_init__', 'data:aff_post_init', attrs=['casing'])
    truth(c, 'form is good', L + 'is_good_form', 'lookup:is_good_form')
    state(c, 'keys of the entry', 'data.dic:Dic.append', 'data:dic_append')
    value(c, 'finding by stem', 'data.dic:Dic.homonyms', 'data:homonyms')
    events(c, 'forms of every variant', L + 'good_forms', 'lookup:good_forms')
    events(c, 'forms in other case', L + 'affix_forms', 'lookup:affix_forms')
    return c.finish()


def c11():
    c = Check('C11', 'Input is converted, cleaned, then judged', RULE +
              'Reference: steps of the word checker and order of them.')
    truth(c, 'word checker', L + '__call__', 'lookup:call')
    value(c, 'dictionary asked', 'dictionary:Dictionary.lookup', 'lookup:dictionary_lookup')
    state(c, 'ignored characters', 'data.aff:Ignore.__post_init__', 'data:ignore')
    return c.finish()


def c12():
    c = Check('C12', 'Words are broken exactly at the break patterns', RULE +
              'Reference: breakings of the word, expressions made of the break patterns.')
    events(c, 'breakings', L + 'break_word', 'lookup:break_word')
    truth(c, 'breakings judged', L + '__call__', 'lookup:call')
    settings(c, 'BREAK')
    state(c, 'break pattern', 'data.aff:BreakPattern.__post_init__', 'data:break_pattern')
    return c.finish()


CHECKS = {'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09, 'C10': c10, 'C11': c11, 'C12': c12}

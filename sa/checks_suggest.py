"""
Checks of suggestions: C14-C19, C21.
"""

import ast

from . import limits
from . import stages
from .core import Check
from .checks_lookup import RULE, L, casing, events, german, settings, state, truth, turkic, value

S = 'algo.suggest:Suggest.'
MAIN = dict(history=True, callback='algo.suggest:Suggestion')


def main(c):
    """the whole procedure, and what it remembers"""
    events(c, 'suggestions', S + 'suggestions', 'suggest:suggestions', kinds=('yield', 'effect'), ordered=True, **MAIN)


def edits_tried(c):
    events(c, 'edits given', S + 'edit_suggestions', 'suggest:edit_suggestions', ordered=True)


def texts(c):
    events(c, 'texts of suggestions', S + '__call__', 'suggest:call')
    events(c, 'texts of suggestions', 'dictionary:Dictionary.suggest', 'suggest:dictionary_suggest')


def has_flag(c):
    truth(c, 'has_flag', 'data.dic:Dic.has_flag', 'data:has_flag')


def c14():
    c = Check('C14', 'Forbidden words are never suggested', RULE +
              'Reference: every suggestion found passes the forbidden-word test with the text it is given with; '
              'what the similarity search starts from.')
    main(c)
    edits_tried(c)
    texts(c)
    has_flag(c)
    state(c, 'made', S + '__init__', 'suggest:init')
    return c.finish()


def c15():
    c = Check('C15', 'The same suggestion is never given twice', RULE +
              'Reference: text is given only if it is not among the remembered ones and is remembered then; the '
              'memory is made once for a word and nothing else changes it.')
    main(c)
    edits_tried(c)
    texts(c)
    remembered(c)
    return c.finish()


def c16():
    c = Check('C16', 'Words marked not to be suggested are not suggested', RULE +
              'Reference: what the checker is asked for confirmation of suggestions; how it treats no-suggest entries; '
              'entries the similarity search starts from.')
    main(c)
    edits_tried(c)
    state(c, 'made', S + '__init__', 'suggest:init')
    events(c, 'n-gram search', S + 'ngram_suggestions', 'suggest:ngram_suggestions')
    events(c, 'phonetic search', S + 'phonet_suggestions', 'suggest:phonet_suggestions')
    for f in ('good_forms', 'affix_forms', 'compound_forms', 'compounds_by_flags', 'compounds_by_rules'):
        events(c, f'no-suggest entries in {f}', L + f, 'lookup:' + f)
    truth(c, 'no-suggest entries in word checker', L + '__call__', 'lookup:call')
    truth(c, 'no-suggest entries in forms', L + 'is_good_form', 'lookup:is_good_form')
    return c.finish()


def c17():
    c = Check('C17', 'Suggestions made by edits are correct words', RULE +
              'Reference: confirmation of every suggestion by the checker.')
    main(c)
    edits_tried(c)
    value(c, 'words joined', 'algo.suggest:MultiWordSuggestion.stringify', 'suggest:stringify')
    events(c, 'edits tried', S + 'edits', 'suggest:edits')
    return c.finish()


def counting(c):
    """suggestions given and counted"""
    c.count('examples of counting', limits.self_check())
    for f in functions(c):
        for name, limit, bad in limits.examine(f.node):
            c.count('counters with limits')
            if not bad:
                c.add(f'counting by {name} up to {limit}', f.qual, 'unknown' if bad is None else 'ok',
                      'not decided: counted in another way' if bad is None else '', f.where())
            for s, text in bad or ():
                c.add(f'counting by {name} up to {limit}', f.qual, 'bad', text, f'{f.path}:{s.lineno}')


def functions(c):
    return [f for f in c.prog.functions.values() if f.qual.split(':')[0] == 'algo.suggest' and not f.is_lambda]


def remembered(c):
    """sets of suggestions already given"""
    c.count('examples of stages', stages.self_check())
    for f in functions(c):
        seen, bad = stages.reset(f.node)
        c.count('sets of what was given', seen)
        for s, name in bad:
            c.add(f'{name} is kept for the whole of the search', f.qual, 'bad',
                  'what was already given is forgotten here, and may be given again', f'{f.path}:{s.lineno}')


def with_compounds(call):
    return any(k.arg == 'compounds' and isinstance(k.value, ast.Constant) and k.value.value is True for k in call.keywords)


def staged(c):
    """stages of the search: what ends it, and what it remembers"""
    c.count('examples of stages', stages.self_check())
    for f in functions(c):
        got = stages.stops(f.node, ['spaceword'], ['forceucase'])
        if got is not None:
            c.count('places that end the search', got[0])
            for y, kind in got[1]:
                c.add(f'nothing follows {kind}', f.qual, 'bad',
                      f'given after a suggestion of the kind {kind}, which ends the search', f'{f.path}:{y.lineno}')
        seen, bad = stages.kept(f.node, with_compounds)
        c.count('flags of a variant', seen)
        for e, name in bad:
            c.add('compounds are tried for each variant', f.qual, 'bad',
                  f'{name} may be what a variant before has set', f'{f.path}:{e.lineno}')
        seen, bad = stages.last_only(f.node, lambda e: 'GOOD_EDITS' in stages.names(e))
        c.count('flags of the search', seen)
        for s, name in bad:
            c.add('any good edit counts', f.qual, 'bad', f'{name} tells only about the last suggestion', f'{f.path}:{s.lineno}')


def c18():
    c = Check('C18', 'Numbers of suggestions are limited as configured', RULE +
              'Reference: counting of suggestions given, and leaving of the loops at the limits.')
    main(c)
    edits_tried(c)
    events(c, 'n-gram search', S + 'ngram_suggestions', 'suggest:ngram_suggestions')
    events(c, 'phonetic search', S + 'phonet_suggestions', 'suggest:phonet_suggestions')
    settings(c, 'MAXCPDSUGS', 'MAXNGRAMSUGS')
    counting(c)
    return c.finish()


def c19():
    c = Check('C19', 'Suggestions follow the letter case of the word asked', RULE +
              'Reference: text of suggestion given, letter case adjustment, output conversion.')
    main(c)
    casing(c, ['coerce', 'corrections', 'guess', 'upper', 'lower', 'capitalize', 'lowerfirst'])
    turkic(c)
    german(c)
    texts(c)
    has_flag(c)
    return c.finish()


def c21():
    c = Check('C21', 'Kinds of suggestions are tried in order and as enabled', RULE +
              'Reference: kinds of edits, tables they take and order of them; conditions of the later stages.')
    events(c, 'edits tried', S + 'edits', 'suggest:edits', ordered=True)
    main(c)
    edits_tried(c)
    truth(c, 'dashes allowed', S + 'use_dash', 'suggest:use_dash')
    value(c, 'words joined', 'algo.suggest:MultiWordSuggestion.stringify', 'suggest:stringify')
    events(c, 'n-gram search', S + 'ngram_suggestions', 'suggest:ngram_suggestions')
    events(c, 'phonetic search', S + 'phonet_suggestions', 'suggest:phonet_suggestions')
    staged(c)
    return c.finish()


CHECKS = {'C14': c14, 'C15': c15, 'C16': c16, 'C17': c17, 'C18': c18, 'C19': c19, 'C21': c21}

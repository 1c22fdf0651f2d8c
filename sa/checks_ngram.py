"""
Checks of the similarity search: C29-C31.
"""

from .core import Check
from .checks_lookup import RULE, compare, events, value
from .checks_suggest import S, main

N = 'algo.ngram_suggest:'
P = 'algo.phonet_suggest:'
M = 'algo.string_metrics:'
METRICS = [M + n for n in ('commoncharacters', 'leftcommonsubstring', 'ngram', 'lcslen')]
STEPS = METRICS + [N + n for n in ('root_score', 'rough_affix_score', 'precise_affix_score', 'detect_threshold',
                                   'forms_for', 'filter_guesses')] + [P + n for n in ('metaphone', 'final_score')]


def search(c):
    events(c, 'n-gram search', N + 'ngram_suggest', 'ngram:ngram_suggest', opaque=STEPS)
    events(c, 'n-gram search called', S + 'ngram_suggestions', 'suggest:ngram_suggestions')


def phonetic(c):
    events(c, 'phonetic search', P + 'phonet_suggest', 'ngram:phonet_suggest', opaque=STEPS)
    events(c, 'phonetic search called', S + 'phonet_suggestions', 'suggest:phonet_suggestions')


def in_order(c, name, code, spec):
    compare(c, name, code, spec, dict(opaque=STEPS), lambda run, ref: c.sorting(name, run, ref))


def c29():
    c = Check('C29', 'Similarity search proposes only real forms of words', RULE +
              'Reference: forms made for the root, and what of them and of the roots goes to the guesses.')
    value(c, 'forms of root', N + 'forms_for', 'ngram:forms_for')
    search(c)
    return c.finish()


def c30():
    c = Check('C30', 'Uncertain similarity suggestions are dropped as documented', RULE +
              'Reference: guesses given and leaving of the loop over them; score groups of the guesses; '
              'what of the guesses is given as suggestions.')
    events(c, 'guesses given', N + 'filter_guesses', 'ngram:filter_guesses')
    value(c, 'group of guess', N + 'precise_affix_score', 'ngram:precise_affix_score', opaque=METRICS)
    search(c)
    main(c)
    return c.finish()


def c31():
    c = Check('C31', 'N-gram and phonetic search rank the nearest words first', RULE +
              'Reference: candidates, their scores, and the order they are given in.')
    search(c)
    phonetic(c)
    in_order(c, 'n-gram guesses in order', N + 'ngram_suggest', 'ngram:ngram_suggest')
    in_order(c, 'phonetic guesses in order', P + 'phonet_suggest', 'ngram:phonet_suggest')
    for f in ('root_score', 'rough_affix_score', 'precise_affix_score', 'detect_threshold'):
        value(c, f'score: {f}', N + f, 'ngram:' + f, opaque=METRICS)
    value(c, 'score: final_score', P + 'final_score', 'ngram:phonetic_score', opaque=METRICS)
    for f in ('commoncharacters', 'leftcommonsubstring', 'ngram', 'lcslen'):
        value(c, f'metric: {f}', M + f, 'ngram:' + f)
    value(c, 'metaphone', P + 'metaphone', 'ngram:meta')
    return c.finish()


CHECKS = {'C29': c29, 'C30': c30, 'C31': c31}

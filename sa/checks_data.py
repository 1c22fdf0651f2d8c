"""
Checks of tables made of settings: C13, C25, C26.
"""

from .core import Check
from .taint import check_patterns
from .checks_lookup import L, RULE, events, state, value

T = 'algo.trie:Trie.'


def c13():
    c = Check('C13', 'Conversion tables replace the longest match at each position', RULE +
              'Reference: rows of the table and the scan of the word (recurrence of position and result).')
    state(c, 'rows', 'data.aff:ConvTable.__post_init__', 'data:conv_table')
    value(c, 'scan', 'data.aff:ConvTable.__call__', 'data:conv_table_call')
    return c.finish()


def index_use(c, code, attr, reverse):
    """which text is looked for in which index"""
    def go():
        c.fresh()
        run = c.analyse(code)
        word = run.args['word']
        want = c.alg.slice(word, c.alg.none, c.alg.none, c.alg.const(-1)) if reverse else word
        n = 0
        for t in c.calls(run, T + 'lookup'):
            args = dict(t.args[1])
            n += 1
            ok = args['self'].op == 'attr' and args['self'].args[1] == attr and args['path'] is want
            c.add('affixes are looked for by the text of the word', code, 'ok' if ok else 'bad',
                  f'index {args["self"]} is asked for {args["path"]}', run.func.where())
        c.count('uses of affix index', n)
        if not n:
            c.add('affixes are looked for in the index', code, 'unknown', 'no use of the index is found')
    c.guarded('uses of affix index', code, go)


def c26():
    c = Check('C26', 'Affix search finds every affix the word could carry', RULE +
              'Reference: what is put into the affix index by its text, how the index stores and finds it.')
    state(c, 'affix indexes', 'data.aff:Aff.__post_init__', 'data:aff_post_init', attrs=['suffixes_index', 'prefixes_index'])
    events(c, 'index is filled', T + '__init__', 'data:trie_init', kinds=('effect', 'call'), watch=('call',))
    events(c, 'value is put', T + 'put', 'data:trie_put', kinds=('effect',))
    events(c, 'values are set', T + 'set', 'data:trie_set', kinds=('effect',))
    events(c, 'values are found', T + 'lookup', 'data:trie_lookup')
    events(c, 'nodes are passed', T + 'traverse', 'data:trie_traverse')
    index_use(c, L + 'desuffix', 'suffixes_index', True)
    index_use(c, L + 'deprefix', 'prefixes_index', False)
    return c.finish()


def c25():
    c = Check('C25', 'Texts from dictionary files are matched literally',
              'Taint analysis: every regular expression made anywhere in the package is traced to the texts it is made '
              'of; each must be constant, escaped, or cut by a constant expression to quantifiers or letters; '
              'replacements must not be templates. Then ' + RULE +
              'Reference: the expressions made of break, replacement, affix, conversion and compound rule texts.')
    check_patterns(c, [('data.aff:Affix', 'condition')])
    # functions where patterns are kept for reading are checked again for what exactly they match
    state(c, 'break pattern', 'data.aff:BreakPattern.__post_init__', 'data:break_pattern')
    state(c, 'replacement pattern', 'data.aff:RepPattern.__post_init__', 'data:rep_pattern')
    state(c, 'prefix text', 'data.aff:Prefix.__post_init__', 'data:prefix', attrs=['replace_regexp'])
    state(c, 'suffix text', 'data.aff:Suffix.__post_init__', 'data:suffix', attrs=['replace_regexp'])
    state(c, 'compound rule', 'data.aff:CompoundRule.__post_init__', 'data:compound_rule')
    state(c, 'conversion rows', 'data.aff:ConvTable.__post_init__', 'data:conv_table')
    return c.finish()


CHECKS = {'C13': c13, 'C25': c25, 'C26': c26}

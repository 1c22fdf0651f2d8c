"""
Checks of dictionary files reading: C22, C23, C24, C28.
"""

import ast

from .core import Check
from .checks_lookup import RULE, compare, events, settings, state, value

R = 'readers.'
APART = ['readers.dic:parse_data', 'readers.aff:Context.parse_flags']


def entries(c):
    dic_append = lambda e: e.kind != 'call' or e.term.args[0].qual == 'data.dic:Dic.append'
    events(c, 'entries', R + 'dic:read_dic', 'readers:read_dic', kinds=('call',), watch=('call',),
           opaque=APART, keep=dic_append)


def pairs_added(c):
    compare(c, 'replacement pairs', R + 'dic:read_dic', 'readers:read_dic', dict(opaque=APART),
            lambda run, ref: c.same_attr('replacement pairs', run, ref, 'aff', 'REP'))


def c24():
    c = Check('C24', 'Every word-list line becomes a findable entry', RULE +
              'Reference: which entry is added for a line of the word list and under which keys it is then found.')
    entries(c)
    value(c, 'the list read', R + 'dic:read_dic', 'readers:read_dic', opaque=APART)
    pairs_added(c)
    events(c, 'data of the entry', R + 'dic:parse_data', 'readers:parse_tags', kinds=('effect',))
    value(c, 'data of the entry', R + 'dic:parse_data', 'readers:parse_tags')
    state(c, 'keys of the entry', 'data.dic:Dic.append', 'data:dic_append')
    state(c, 'empty indexes', 'data.dic:Dic.__post_init__', 'readers:dic_post_init')
    value(c, 'finding by stem', 'data.dic:Dic.homonyms', 'data:homonyms')
    return c.finish()


FILES = ['readers.aff:read_aff', 'readers.dic:read_dic', 'readers.file_reader:FileReader.__init__',
         'readers.file_reader:ZipReader.__init__']
AFF_APART = ['readers.aff:Context.parse_flags', 'readers.aff:Context.parse_flag', 'readers.aff:make_affix',
             'readers.aff:Context.split_flags']


def directives(c):
    """settings known to the reference -> which of them are settings of Aff"""
    spec = c.spec('readers:value_of')
    names = []
    for name in ('TEXT', 'NUMBER', 'SINGLE_FLAG', 'SWITCH'):
        names += ast.literal_eval(spec.module.ns[name][1])
    for n in ast.walk(spec.node):
        if isinstance(n, ast.Compare) and isinstance(n.comparators[0], ast.Constant) and \
                isinstance(n.left, ast.Name):
            names.append(n.comparators[0].value)
    return sorted(names)


def directive_values(c, only=None):
    names = directives(c)
    fields = {f[0] for f in c.prog.cls('data.aff:Aff').all_fields()}
    c.count('directives', len(names))
    for name in names:
        c.require('directive is a setting', f'data.aff:Aff.{name}', name in fields, 'no such setting in class Aff',
                  c.prog.cls('data.aff:Aff').module.relpath)
    switch = ast.literal_eval(c.spec('readers:value_of').module.ns['SWITCH'][1])
    others = sorted(fields - set(names))
    c.count('settings without directive', len(others))
    for name in only or names + ['UNKNOWN']:
        assume = None if name in switch else 'readers:has_value'
        compare(c, f'value of {name}', R + 'aff:read_value', 'readers:value_of',
                dict(opaque=AFF_APART, args=lambda: {'directive': c.alg.const(name)}),
                lambda run, ref: c.same_value(f'value of {name}', run, ref, assume=assume))


def phonetic_rules(c):
    value(c, 'rule of PHONE', 'data.aff:PhonetTable.parse_rule', 'readers:phonet_rule')
    state(c, 'rules of PHONE', 'data.aff:PhonetTable.__post_init__', 'readers:phonet_rules',
          opaque=['data.aff:PhonetTable.parse_rule'])
    value(c, 'match of PHONE rule', 'data.aff:PhonetTable.Rule.match', 'readers:phonet_match')


def c22():
    c = Check('C22', 'Every affix-file directive is read into its setting', RULE +
              'The reader of values is specialised for every directive in turn; the value is compared with the '
              'reference for the directive, as are the choice of directive and where its value is put.')
    directive_values(c)
    settings(c)
    value(c, 'name and value', R + 'aff:read_directive', 'readers:directive', opaque=[R + 'aff:read_value'])
    value(c, 'affix', R + 'aff:make_affix', 'readers:affix', opaque=AFF_APART)
    phonetic_rules(c)
    value(c, 'settings', R + 'aff:read_aff', 'readers:affix_file', opaque=[R + 'aff:read_directive'])
    value(c, 'single flag', R + 'aff:Context.parse_flag', 'readers:parse_flag', opaque=AFF_APART)
    return c.finish()


def c23():
    c = Check('C23', 'Encoding, flag format, aliases and ignored characters apply to both files', RULE +
              'References: how flags are split and parsed in the current context, what of the affix file changes the '
              'context, and where both readers use it.')
    directive_values(c, ['AF', 'AM', 'FLAG', 'IGNORE', 'SET'])
    value(c, 'splitting flags', R + 'aff:Context.split_flags', 'readers:split_flags')
    value(c, 'parsing flags', R + 'aff:Context.parse_flags', 'readers:parse_flags', opaque=AFF_APART)
    value(c, 'single flag', R + 'aff:Context.parse_flag', 'readers:parse_flag', opaque=AFF_APART)
    apart = [R + 'aff:read_directive']
    value(c, 'context', R + 'aff:read_aff', 'readers:affix_file', opaque=apart)
    compare(c, 'context', R + 'aff:read_aff', 'readers:affix_file', dict(opaque=apart),
            lambda run, ref: c.same_object('context', run, ref, 'readers.aff:Context'))
    events(c, 'changing encoding', R + 'aff:read_aff', 'readers:affix_file', kinds=('call', 'methcall'),
           watch=('call',), opaque=apart)
    value(c, 'affix', R + 'aff:make_affix', 'readers:affix', opaque=AFF_APART)
    entries(c)
    value(c, 'the list read', R + 'dic:read_dic', 'readers:read_dic', opaque=APART)
    value(c, 'dictionary from files', 'dictionary:Dictionary.from_files', 'readers:from_files', opaque=FILES)
    value(c, 'dictionary from archive', 'dictionary:Dictionary.from_zip', 'readers:from_zip', opaque=FILES)
    return c.finish()


def c28():
    c = Check('C28', 'The line reader survives encoding changes', RULE +
              'References: which lines the reader gives, what it skips when it is opened again, how files are opened.')
    fr = R + 'file_reader:'
    io = [fr + 'BaseReader.reset_io', fr + 'FileReader._open', fr + 'ZipReader._open', fr + 'BaseReader.readlines']
    for name, code, spec in [
            ('start', 'BaseReader.__init__', 'reader_init'), ('reopening', 'BaseReader.reset_io', 'reset_io'),
            ('file', 'FileReader.__init__', 'file_init'), ('changing encoding of file', 'FileReader.reset_encoding', 'file_reset'),
            ('archive', 'ZipReader.__init__', 'zip_init'), ('changing encoding in archive', 'ZipReader.reset_encoding', 'zip_reset')]:
        events(c, name, fr + code, 'readers:' + spec, kinds=('call', 'methcall', 'effect'), watch=('call',), opaque=io)
        state(c, name, fr + code, 'readers:' + spec, opaque=io)
    value(c, 'next line', fr + 'BaseReader.__next__', 'readers:reader_next')
    events(c, 'lines', fr + 'BaseReader.readlines', 'readers:readlines')
    value(c, 'opening file', fr + 'FileReader._open', 'readers:file_open')
    value(c, 'opening in archive', fr + 'ZipReader._open', 'readers:zip_open')
    return c.finish()


CHECKS = {'C22': c22, 'C23': c23, 'C28': c28, 'C24': c24}

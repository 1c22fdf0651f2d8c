"""
Reference for the tables of settings: what is made of the text from affix file (C08, C09, C12, C13, C25, C26).
"""

import re
import functools
import itertools
from operator import itemgetter
from collections import defaultdict

from spylls.hunspell.algo.trie import Leaf, Trie
from spylls.hunspell.data.aff import BreakPattern
from spylls.hunspell.algo.capitalization import Casing, GermanCasing, TurkicCasing


def break_pattern(self):
    literal = re.escape(self.pattern).replace('\\^', '^').replace('\\$', '$')
    if literal.startswith('^') or literal.endswith('$'):
        self.regexp = re.compile('(' + literal + ')')
    else:
        self.regexp = re.compile('.(' + literal + ').')


def ignore(self):
    self.tr = str.maketrans('', '', self.chars)


def rep_pattern(self):
    self.regexp = re.compile(re.escape(self.pattern).replace('\\^', '^').replace('\\$', '$'))


def prefix(self):
    self.cond_regexp = re.compile('^' + self.condition.replace('-', '\\-'))
    self.replace_regexp = re.compile('^' + re.escape(self.add))


def suffix(self):
    self.cond_regexp = re.compile(self.condition.replace('-', '\\-') + '$')
    self.replace_regexp = re.compile(re.escape(self.add) + '$')


def rule_fullmatch(self, flag_sets):
    return any(self.re.fullmatch(''.join(fc))
               for fc in itertools.product(*[self.flags.intersection(f) for f in flag_sets]))


def rule_partial_match(self, flag_sets):
    return any(self.partial_re.fullmatch(''.join(fc))
               for fc in itertools.product(*[self.flags.intersection(f) for f in flag_sets]))


def compound_pattern(self):
    self.left_stem, _, self.left_flag = self.left.partition('/')
    self.right_stem, _, self.right_flag = self.right.partition('/')
    self.left_no_affix = self.left_stem == '0'
    if self.left_no_affix:
        self.left_stem = ''
    self.right_no_affix = self.right_stem == '0'
    if self.right_no_affix:
        self.right_stem = ''


def compound_pattern_match(self, left, right):
    if not (left.stem.endswith(self.left_stem) and right.stem.startswith(self.right_stem)):
        return False
    if self.left_no_affix and left.is_base() or self.right_no_affix and right.is_base():
        return False
    if self.left_flag and self.left_flag not in left.flags():
        return False
    return not self.right_flag or self.right_flag in right.flags()


def aff_post_init(self):
    suffixes = defaultdict(list)
    for group in self.SFX.values():
        for suf in group:
            suffixes[suf.add[::-1]].append(suf)
    self.suffixes_index = Trie(suffixes)
    prefixes = defaultdict(list)
    for group in self.PFX.values():
        for pref in group:
            prefixes[pref.add].append(pref)
    self.prefixes_index = Trie(prefixes)

    if self.CHECKSHARPS:
        self.casing = GermanCasing()
    elif self.LANG in ('tr', 'tr_TR', 'az', 'crh'):
        self.casing = TurkicCasing()
    else:
        self.casing = Casing()


def homonyms(self, stem, *, ignorecase):
    return self.lowercase_index.get(stem, []) if ignorecase else self.index.get(stem, [])


def has_flag(self, stem, flag, *, for_all):
    found = self.homonyms(stem)
    if for_all:
        return bool(found) and all(flag in word.flags for word in found)
    return any(flag in word.flags for word in found)


def dic_append(self, word, *, lower):
    self.words.append(word)
    self.index[word.stem].append(word)
    for form in lower:
        self.lowercase_index[form].append(word)


def conv_table(self):
    self.table = sorted([conv_row(pat, rep) for pat, rep in self.pairs], key=itemgetter(0))


def conv_row(pat, rep):
    text = pat.replace('_', '')
    regexp = re.escape(text)
    if pat.startswith('_'):
        regexp = '^' + regexp
    if pat.endswith('_'):
        regexp = regexp + '$'
    return text, re.compile(regexp), rep.replace('_', ' ')


def conv_table_call(self, word):
    pos = 0
    res = ''
    while pos < len(word):
        matches = [row for row in self.table if row[0] and row[1].match(word, pos)]
        if matches:
            longest = max(matches, key=lambda row: len(row[0]))
            res += longest[2]
            pos += len(longest[0])
        else:
            res += word[pos]
            pos += 1
    return res


# ---- trie

def trie_init(self, data):
    self.root = Leaf()
    if data:
        for key, val in data.items():
            self.set(key, val)


def trie_set(self, path, payloads):
    cur = self.root
    for p in path:
        cur = cur.children[p]
    cur.payloads = payloads


def trie_put(self, path, payload):
    cur = self.root
    for p in path:
        cur = cur.children[p]
    cur.payloads.append(payload)


def trie_lookup(self, path):
    for _, leaf in self.traverse(self.root, path):
        yield from leaf.payloads


def trie_traverse(self, cur, path, traversed):
    yield traversed, cur
    if path and path[0] in cur.children:
        yield from self.traverse(cur.children[path[0]], path[1:], [*traversed, path[0]])


def compound_rule(self):
    if '(' in self.text:
        self.flags = set(re.findall('\\((.+?)\\)', self.text))
        parts = ['(' + re.escape(flag) + ')' + times for flag, times in re.findall('\\(([^*?]+?)\\)([*?]?)', self.text)]
    else:
        self.flags = set(re.sub('[\\*\\?]', '', self.text))
        parts = [re.escape(part[0]) + part[1:] for part in re.findall('[^*?][*?]?', self.text)]
    self.re = re.compile(''.join(parts))
    self.partial_re = re.compile(functools.reduce(lambda res, part: part + '(' + res + ')?', reversed(parts)))


def aff_defaults():
    return {
        'SET': 'Windows-1252', 'FLAG': 'short', 'LANG': None, 'WORDCHARS': None, 'IGNORE': None, 'CHECKSHARPS': False,
        'FORBIDDENWORD': None, 'KEEPCASE': None, 'NOSUGGEST': None, 'KEY': 'qwertyuiop|asdfghjkl|zxcvbnm', 'TRY': '',
        'REP': [], 'MAP': [], 'NOSPLITSUGS': False, 'PHONE': None, 'MAXCPDSUGS': 3, 'MAXNGRAMSUGS': 4, 'MAXDIFF': -1,
        'ONLYMAXDIFF': False, 'PFX': {}, 'SFX': {}, 'NEEDAFFIX': None, 'CIRCUMFIX': None, 'COMPLEXPREFIXES': False,
        'FULLSTRIP': False, 'BREAK': [BreakPattern('-'), BreakPattern('^-'), BreakPattern('-$')], 'COMPOUNDRULE': [],
        'COMPOUNDMIN': 3, 'COMPOUNDWORDMAX': None, 'COMPOUNDFLAG': None, 'COMPOUNDBEGIN': None, 'COMPOUNDMIDDLE': None,
        'COMPOUNDEND': None, 'ONLYINCOMPOUND': None, 'COMPOUNDPERMITFLAG': None, 'COMPOUNDFORBIDFLAG': None,
        'FORCEUCASE': None, 'CHECKCOMPOUNDCASE': False, 'CHECKCOMPOUNDDUP': False, 'CHECKCOMPOUNDREP': False,
        'CHECKCOMPOUNDTRIPLE': False, 'CHECKCOMPOUNDPATTERN': [], 'SIMPLIFIEDTRIPLE': False, 'ICONV': None,
        'OCONV': None, 'AF': {}, 'AM': {},
    }


def turkic_tables():
    return {'U2L': str.maketrans('İI', 'iı'), 'L2U': str.maketrans('iı', 'İI')}

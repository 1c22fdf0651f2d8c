"""Wrong edits that look outside of words, lists and tables (C04)"""
L, S, DIC, CAP, AFF, TRIE = ('algo/lookup.py', 'algo/suggest.py', 'data/dic.py', 'algo/capitalization.py', 'data/aff.py',
                             'algo/trie.py')
N, P, D, RA, RD, PH = ('algo/ngram_suggest.py', 'algo/permutations.py', 'dictionary.py', 'readers/aff.py', 'readers/dic.py',
                       'algo/phonet_suggest.py')
SM = 'algo/string_metrics.py'
BUGS = []


def b(prop, name, *pairs, file=L):
    BUGS.append((prop, name, file, pairs))


b('C04', 'lower-empty', ("if not word or word[0] == 'İ':", "if word[0] == 'İ':"), file=CAP)
b('C04', 'coerce-first', ('return self.upper(word[:1]) + word[1:]', 'return self.upper(word[0]) + word[1:]'), file=CAP)
b('C04', 'lowerfirst-huh', ('''        elif captype == Type.HUH:
            result = [word, *self.lower(word)]
''', '''        elif captype == Type.HUH:
            result = [word, *self.lowerfirst(word), *self.lower(word)]
'''), file=CAP)
b('C04', 'forceucase-any', ('if self.aff.FORCEUCASE and captype == CapType.NO:', 'if self.aff.FORCEUCASE and captype != CapType.INIT:'),
  ('for capitalized in self.aff.casing.capitalize(word):', 'for capitalized in self.aff.casing.lowerfirst(word):'), file='algo/suggest.py')
b('C04', 'swapchar-range', ('for i in range(len(word) - 1):', 'for i in range(len(word)):'), file=P)
b('C04', 'doubleswap-third', ('if len(word) in [4,  5]:', 'if len(word) in [2, 4, 5]:'),
  ("(word[2] if len(word) == 5 else '')", "(word[2] if len(word) != 4 else '')"), file=P)
b('C04', 'longswap-range', ('min(first + MAX_CHAR_DISTANCE, len(word))', 'first + MAX_CHAR_DISTANCE'), file=P)
b('C04', 'longswap-max', ('min(first + MAX_CHAR_DISTANCE, len(word))', 'min(first + MAX_CHAR_DISTANCE, len(word) + 1)'), file=P)
b('C04', 'key-last', ("if pos + 1 < len(layout) and layout[pos+1] != '|':", "if layout[pos+1] != '|':"), file=P)
b('C04', 'key-edge', ("if pos + 1 < len(layout) and", 'if pos < len(layout) and'), file=P)
b('C04', 'move-range', ('for frompos in reversed(range(len(word))):', 'for frompos in reversed(range(len(word) + 1)):'), file=P)
b('C04', 'badchar-range', ('''        for i in reversed(range(len(word))):
            if word[i] == c''', '''        for i in range(len(word), -1, -1):
            if word[i] == c'''), file=P)
b('C04', 'badchar-range2', ('''        for i in reversed(range(len(word))):
            if word[i] == c''', '''        for i in range(len(word) + 1):
            if word[i] == c'''), file=P)
b('C04', 'double-range', ('for i in range(3, len(word)):', 'for i in range(3, len(word) + 1):'), file=P)
b('C04', 'double-ahead', ('if word[i-2] == word[i] and word[i-3] == word[i-1]:',
                          'if word[i-2] == word[i] and word[i-1] == word[i+1]:'), file=P)
b('C04', 'space-word', ('if (pos + 1 < len(text) and pos < len(word) and', 'if (pos + 1 < len(text) and'), file=S)
b('C04', 'space-word-next', ('text[pos + 1].upper() == word[pos])', 'text[pos + 1].upper() == word[pos + 1])'), file=S)
b('C04', 'trie-path', ('if not path or path[0] not in cur.children:', 'if path[0] not in cur.children:'), file=TRIE)
b('C04', 'conv-first', ('            if matches:\n                search', '            if self.table:\n                search'), file=AFF)
b('C04', 'conv-next', ('''                res += word[pos]
                pos += 1
''', '''                pos += 1
                res += word[pos]
'''), file=AFF)
b('C04', 'conv-loop', ('while pos < len(word):\n            matches', 'while pos <= len(word):\n            matches'), file=AFF)
b('C04', 'parts-next', ('''compound.parts[:-1]''', '''compound.parts'''))
b('C04', 'compound-third', ("beg[-1] == rest[0]", "beg[-2] == rest[0]"))
b('C04', 'compound-third2', ("beg[-1] == rest[0]", "beg[-1] == rest[1]"))
b('C04', 'metaphone-max', ('while pos < len(word):', 'while pos <= len(word):'), file=PH)
b('C04', 'metaphone-index', ('table.rules.get(word[pos], [])', 'table.rules.get(word[pos + 1], [])'), file=PH)
b('C04', 'lcs-size', ('[[0 for j in range(n+1)] for i in range(m+1)]', '[[0 for j in range(n)] for i in range(m)]'), file=SM)
b('C04', 'lcs-range', ('for j in range(n):', 'for j in range(n + 1):'), file=SM)
b('C04', 'common-index', ('''    for (i, (c1, c2)) in enumerate(zip(s1, s2)):
        if c1 != c2:
            return i
''', '''    for i, c1 in enumerate(s1):
        if c1 != s2[i]:
            return i
'''), file=SM)
b('C04', 'common-sum', ('return sum(c1 == c2 for c1, c2 in zip(s1, s2))', 'return sum(s1[i] == s2[i] for i in range(len(s1)))'),
  file=SM)
b('C04', 'threshold-range', ('mangled[pos]', 'mangled[pos + 4]'), file=N)
b('C04', 'homonyms-first', ('''            if self.aff.casing.guess(word) == CapType.NO:
                for homonym in self.dic.homonyms(form.stem, ignorecase=True):
''', '''            if self.aff.casing.guess(word) == CapType.NO:
                for homonym in [self.dic.homonyms(form.stem, ignorecase=True)[0]]:
'''))
b('C04', 'forms-next', ('''return any(self.good_forms(w, capitalization=capitalization, allow_nosuggest=allow_nosuggest))''',
                        '''return bool(next(self.good_forms(w, capitalization=capitalization, allow_nosuggest=allow_nosuggest)))'''))
b('C04', 'filter-max', ('''                score = max(score, root_score(misspelling, variant))
''', '''                score = max(root_score(misspelling, variant) for variant in word.data['ph'])
'''), file=N)
b('C04', 'flag-first', ("""        if not homonyms:
            return False
        if for_all:
            return all(flag in homonym.flags for homonym in homonyms)
        return any(""", """        if for_all:
            return flag in homonyms[0].flags
        return any("""), file=DIC)
b('C04', 'forms-first', ("""            homonyms = self.dic.homonyms(form.stem)
""", """            homonyms = self.dic.homonyms(form.stem)
            first = homonyms[0]
"""))
b('C04', 'chunk-index', ("chunks = word.split('-')\n", "chunks = word.split('-')\n            first, second = chunks[0], chunks[2]\n"), file=S)
b('C04', 'pattern-left', ('left.stem.endswith(self.left_stem)', "left.stem[-1] == self.left_stem[-1]"), file=AFF)

"""Wrong edits after which something never ends (C03)"""
L, S, DIC, CAP, AFF, TRIE = ('algo/lookup.py', 'algo/suggest.py', 'data/dic.py', 'algo/capitalization.py', 'data/aff.py',
                             'algo/trie.py')
N, P, D, RA, RD, PH = ('algo/ngram_suggest.py', 'algo/permutations.py', 'dictionary.py', 'readers/aff.py', 'readers/dic.py',
                       'algo/phonet_suggest.py')
FR = 'readers/file_reader.py'
BUGS = []


def b(name, *pairs, file=L):
    BUGS.append(('C03', name, file, pairs))


b('conv-empty', ('if search and pattern.match(word, pos)]', 'if pattern.match(word, pos)]'), file=AFF)
b('conv-replacement', ('pos += len(search)', 'pos += len(replacement)'), file=AFF)
b('conv-no-step', ('''                res += word[pos]
                pos += 1
''', '''                res += word[pos]
'''), file=AFF)
b('conv-step-in', ('''            else:
                res += word[pos]
                pos += 1
''', '''            else:
                res += word[pos]
                if not matches and pos == 0:
                    pos += 1
'''), file=AFF)
b('metaphone-max', ('pos += max(match.span()[1] - match.span()[0], 1)', 'pos += match.span()[1] - match.span()[0]'), file=PH)
b('metaphone-end', ('pos += max(match.span()[1] - match.span()[0], 1)', 'pos += match.end() - match.start()'), file=PH)
b('metaphone-nomatch', ('''        if not match:
            pos += 1
''', '''        if not match and not res:
            pos += 1
'''), file=PH)
b('metaphone-len', ('pos += max(match.span()[1] - match.span()[0], 1)', 'pos += len(rule.replacement)'), file=PH)
b('key-same', ('pos = layout.find(c, pos+1)', 'pos = layout.find(c, pos)'), file=P)
b('key-again', ('pos = layout.find(c, pos+1)', 'pos = layout.find(c)'), file=P)
b('key-cond', ('            pos = layout.find(c, pos+1)', '            if pos > 0:\n                pos = layout.find(c, pos+1)'), file=P)
b('map-start', ('mapchars_internal(replaced, pos + len(other))', 'mapchars_internal(replaced, start)'), file=P)
b('map-pos', ('mapchars_internal(replaced, pos + len(other))', 'mapchars_internal(replaced, pos)'), file=P)
b('map-none', ('mapchars_internal(replaced, pos + len(other))', 'mapchars_internal(replaced)'), file=P)
b('sharp-same', ('*sharp_s_variants(text, pos+2)', '*sharp_s_variants(text, pos)'), file=CAP)
b('sharp-start', ('*sharp_s_variants(text, pos+2)', '*sharp_s_variants(text, start)'), file=CAP)
b('sharp-none', ('*sharp_s_variants(text, pos+2)', '*sharp_s_variants(text)'), file=CAP)
b('break-whole', ('''                rest = text[m.end(1):]
                for breaking in self.break_word(rest, depth=depth+1):''', '''                rest = text[m.start():]
                for breaking in self.break_word(rest, depth=depth):'''))
b('break-depth', ('''self.break_word(rest, depth=depth+1)''', '''self.break_word(text, depth=depth)'''))
b('break-same', ('''                for breaking in self.break_word(rest, depth=depth+1):''',
                 '''                for breaking in self.break_word(text):'''))
b('suffix-nested', ('''                                           nested=True,
                                           crossproduct''', '''                                           crossproduct'''))
b('suffix-always', ('            if not nested:\n', '            if not nested or crossproduct:\n'))
b('suffix-passed', ('''                                           nested=True,
                                           crossproduct''', '''                                           nested=nested,
                                           crossproduct'''))
b('prefix-nested', ('if not nested and self.aff.COMPLEXPREFIXES:', 'if self.aff.COMPLEXPREFIXES:'))
b('prefix-passed', ('''                                           forbidden_flags=forbidden_flags,
                                           nested=True):
                    yield form2.replace(prefix2''', '''                                           forbidden_flags=forbidden_flags):
                    yield form2.replace(prefix2'''))
b('compound-rest', ('            rest = word_rest[pos:]\n', '            rest = word_rest[pos - aff.COMPOUNDMIN:]\n'))
b('compound-range', ('''        for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
            beg = word_rest[0:pos]
            rest''', '''        for pos in range(len(word_rest) - aff.COMPOUNDMIN + 1):
            beg = word_rest[0:pos]
            rest'''))
b('compound-word', ('self.compounds_by_rules(word_rest[pos:], rules', 'self.compounds_by_rules(word_rest, rules'))
b('compound-rules-zero', ('''        for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
            beg = word_rest[0:pos]
            for homonym''', '''        for pos in range(0, len(word_rest) - aff.COMPOUNDMIN + 1):
            beg = word_rest[0:pos]
            for homonym'''))
b('trie-same', ('self.traverse(cur.children[path[0]], path[1:]', 'self.traverse(cur, path[0:]'), file=TRIE)
b('dashes-word', ('for sug in self(chunk):', 'for sug in self(word):'), file=S)
b('dashes-any', ("if '-' in word and not any('-' in sug for sug in handled):", "if not any('-' in sug for sug in handled):"), file=S)
b('reader-loop', ('''            yield (self.line_no, ln.strip())
            ln = self.io.readline()
''', '''            if ln.strip():
                yield (self.line_no, ln.strip())
                ln = self.io.readline()
'''), file=FR)
b('reader-blank', ("while ln != '':", 'while ln is not None:'), file=FR)
b('iconv-until', ('''            word = self.aff.ICONV(word)
''', '''            while self.aff.ICONV(word) != word:
                word = self.aff.ICONV(word)
'''))
b('oconv-until', ('''            text = self.aff.OCONV(text) if self.aff.OCONV else text
''', '''            while self.aff.OCONV and text != self.aff.OCONV(text):
                text = self.aff.OCONV(text)
'''), file=S)
b('iconv-again', ('''            word = self.aff.ICONV(word)
''', '''            return self(self.aff.ICONV(word), capitalization=capitalization, allow_nosuggest=allow_nosuggest)
'''))
b('lookup-lower', ('''        if NUMBER_REGEXP.fullmatch(word):
            return True
''', '''        if NUMBER_REGEXP.fullmatch(word):
            return True
        if word.endswith('.') and self(word.rstrip("'"), capitalization=capitalization, allow_nosuggest=allow_nosuggest):
            return True
'''))
b('good-again', ('''        if self.aff.FORBIDDENWORD and any(self.aff.FORBIDDENWORD in candidate.flags()
''', '''        if any(self.good_forms(word, capitalization=False, compound_forms=True, affix_forms=False)):
            return
        if self.aff.FORBIDDENWORD and any(self.aff.FORBIDDENWORD in candidate.flags()
'''))
b('alias-all', ('parts = SPACES_REGEXP.split(text)\n    for tag_str in parts:', '''parts = SPACES_REGEXP.split(text)
    for tag_str in parts:
        parts.append(tag_str.lower())'''), file=RD)
b('replchars-while', ('''        for match in pattern.regexp.finditer(word):
            suggestion''', '''        match = pattern.regexp.search(word)
        while match:
            suggestion'''), ('''                yield suggestion.split(' ', 2)
''', '''                yield suggestion.split(' ', 2)
            match = pattern.regexp.search(word, match.start())
'''), file=P)
b('affix-loop', ('''            if not suffix.cond_regexp.search(stem):
                continue
''', '''            while suffix.replace_regexp.search(stem):
                stem = suffix.replace_regexp.sub(lambda _: suffix.strip, stem)
            if not suffix.cond_regexp.search(stem):
                continue
'''))

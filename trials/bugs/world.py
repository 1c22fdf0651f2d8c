"""Wrong edits of what queries may change and depend on (C01, C02)"""
L, S, DIC, CAP, AFF, TRIE = ('algo/lookup.py', 'algo/suggest.py', 'data/dic.py', 'algo/capitalization.py', 'data/aff.py',
                             'algo/trie.py')
N, P, D, RA, RD, PH = ('algo/ngram_suggest.py', 'algo/permutations.py', 'dictionary.py', 'readers/aff.py', 'readers/dic.py',
                       'algo/phonet_suggest.py')
BUGS = []


def b(prop, name, *pairs, file=L):
    BUGS.append((prop, name, file, pairs))


b('C01', 'index-subscript', ('return self.index.get(stem, [])', 'return self.index[stem]'), file=DIC)
b('C01', 'lower-index-subscript', ('return self.lowercase_index.get(stem, [])', 'return self.lowercase_index[stem]'), file=DIC)
b('C01', 'trie-autovivify', ('if not path or path[0] not in cur.children:', 'if not path:'), file=TRIE)
b('C01', 'flags-update', ('flags = flags.union(self.suffix.flags)', 'flags |= self.suffix.flags'))
b('C01', 'flags-update2', ('''            flags = flags.union(self.prefix.flags)
''', '''            flags.update(self.prefix.flags)
'''))
b('C01', 'homonyms-extend', ('''            homonyms = self.dic.homonyms(form.stem)
''', '''            homonyms = self.dic.homonyms(form.stem)
            if captype == CapType.INIT:
                homonyms += self.dic.homonyms(form.stem.lower())
'''))
b('C01', 'rules-filter', ('''                compoundrules = [r for r in rules if r.partial_match(flag_sets)]
''', '''                compoundrules = rules
                for r in [r for r in rules if not r.partial_match(flag_sets)]:
                    compoundrules.remove(r)
'''))
b('C01', 'default-grow', ('''                parts = [*prev_parts, homonym]
                flag_sets = [w.flags for w in parts]
                compoundrules''', '''                parts = prev_parts
                parts.append(homonym)
                flag_sets = [w.flags for w in parts]
                compoundrules'''))
b('C01', 'traversed-append', ('''        yield from self.traverse(cur.children[path[0]], path[1:], [*traversed, path[0]])
''', '''        traversed.append(path[0])
        yield from self.traverse(cur.children[path[0]], path[1:], traversed)
'''), file=TRIE)
b('C01', 'form-cache', ('''            return any(self.good_forms(w, capitalization=capitalization, allow_nosuggest=allow_nosuggest))
''', '''            if w not in self.known:
                self.known[w] = any(
                    self.good_forms(w, capitalization=capitalization, allow_nosuggest=allow_nosuggest)
                )
            return self.known[w]
'''), ('''        self.aff = aff
        self.dic = dic
''', '''        self.aff = aff
        self.dic = dic
        self.known = {}
'''))
b('C01', 'word-field', ('''                candidate = form.replace(in_dictionary=homonym)
                if is_good_form(candidate):
                    found = True
                    yield candidate
            # "INITIAL''', '''                candidate = form.replace(in_dictionary=homonym)
                if is_good_form(candidate):
                    found = True
                    homonym.captype = captype
                    yield candidate
            # "INITIAL'''))
b('C01', 'handled-attr', ('handled: Set[str] = set()', 'handled = self.handled'), ('''        self.lookup = lookup
''', '''        self.lookup = lookup
        self.handled: Set[str] = set()
'''), file=S)
b('C01', 'rep-append', ('''            yield Suggestion(suggestion, 'mapchars')
''', '''            yield Suggestion(suggestion, 'mapchars')
            self.aff.REP.append(data.aff.RepPattern(word, suggestion))
'''), file=S)
b('C01', 'ngram-generator', ('''        self.words_for_ngram = [word for word in self.dic.words if not bad_flags.intersection(word.flags)]
''', '''        self.words_for_ngram = (word for word in self.dic.words if not bad_flags.intersection(word.flags))
'''), file=S)
b('C01', 'ngram-filter', ('''        self.words_for_ngram = [word for word in self.dic.words if not bad_flags.intersection(word.flags)]
''', '''        self.words_for_ngram = filter(lambda word: not bad_flags.intersection(word.flags), self.dic.words)
'''), file=S)
b('C01', 'words-sort', ('''    for word in dictionary_words:
''', '''    dictionary_words.sort(key=lambda w: len(w.stem))
    for word in dictionary_words:
'''), file=N)
b('C01', 'alt-append', ('''        for form in forms_for(root, prefixes, suffixes, similar_to=misspelling):
''', '''        root.alt_spellings.append(misspelling)
        for form in forms_for(root, prefixes, suffixes, similar_to=misspelling):
'''), file=N)
b('C01', 'global-count', ('''MAX_ROOTS = 100
''', '''MAX_ROOTS = 100
SEEN = []
'''), ('''    threshold = detect_threshold(misspelling)
''', '''    SEEN.append(misspelling)
    threshold = detect_threshold(misspelling)
'''), file=N)
b('C01', 'cached-gen', ('from typing import Iterator, Tuple, List, Set, Dict\n', 'from typing import Iterator, Tuple, List, Set, Dict\nimport functools\n'),
  ('''def filter_guesses(''', '''@functools.lru_cache(maxsize=None)
def filter_guesses('''), file=N)
b('C01', 'cached-list', ('import re\n', 'import re\nimport functools\n'), ('''    def compound_forms(self''', '''    @functools.lru_cache(maxsize=1000)
    def _variants(self, word):
        return list(self.aff.casing.variants(word)[1])

    def compound_forms(self'''), ('captype, variants = self.aff.casing.variants(word)', '''captype, variants = self.aff.casing.guess(word), self._variants(word)
            if word not in variants:
                variants.append(word)
            variants.sort()'''))
b('C01', 'conv-table-sort', ('''    def __call__(self, word):
''', '''    def __call__(self, word):
        self.table.sort(key=lambda row: len(row[0]))
'''), file=AFF)
b('C01', 'phone-rules', ("table.rules.get(word[pos], [])", 'table.rules[word[pos]]'), file=PH)
b('C01', 'del-break', ('''                for breaking in self.break_word(rest, depth=depth+1):
''', '''                if not rest:
                    self.aff.BREAK.remove(pat)
                for breaking in self.break_word(rest, depth=depth+1):
'''))
b('C01', 'class-attr', ('''        captype, variants = self.aff.casing.corrections(word)
''', '''        captype, variants = self.aff.casing.corrections(word)
        Suggest.last = word
'''), file=S)
b('C01', 'setattr', ('''        captype, variants = self.aff.casing.corrections(word)
''', '''        captype, variants = self.aff.casing.corrections(word)
        setattr(self.aff, 'MAXNGRAMSUGS', min(self.aff.MAXNGRAMSUGS, 4))
'''), file=S)
b('C01', 'heap-words', ('''    root_scores: List[Tuple[float, data.dic.Word]] = []
''', '''    root_scores = dictionary_words
'''), file=N)
b('C01', 'use-once', ('''        yield from self.suggester(word)
''', '''        self.last = self.suggester(word)
        yield from self.last
'''), file=D)
b('C01', 'forms-alias', ('''    res = [word.stem]
''', '''    res = word.alt_spellings
    res.append(word.stem)
'''), file=N)
b('C01', 'permit-flags', ('''        permitflags = [aff.COMPOUNDPERMITFLAG] if aff.COMPOUNDPERMITFLAG else []
''', '''        permitflags = [aff.COMPOUNDPERMITFLAG] if aff.COMPOUNDPERMITFLAG else []
        if not aff.COMPOUNDMIN:
            aff.COMPOUNDMIN = 3
'''))
b('C01', 'suffix-required', ('''required_flags=[suffix.flag, *required_flags],''', '''required_flags=required_flags.append(suffix.flag) or required_flags,'''))

b('C02', 'variants-enum', ('for idx, variant in enumerate(variants):', 'for idx, variant in enumerate(set(variants)):'), file=S)
b('C02', 'variants-list', ('captype, variants = self.aff.casing.corrections(word)', '''captype, variants = self.aff.casing.corrections(word)
        variants = list(set(variants))'''), file=S)
b('C02', 'try-set', ('''    for c in trystring:
        for i in range(len(word) + 1):
''', '''    for c in set(trystring):
        for i in range(len(word) + 1):
'''), file=P)
b('C02', 'rep-set', ('''    for pattern in reptable:
''', '''    for pattern in {*reptable}:
'''), file=P)
b('C02', 'map-set', ('''            for option in options:
''', '''            for option in set(options):
'''), file=P)
b('C02', 'map-reader-set', ('''            [
                re.sub(r'[()]', '', s)
                for s in re.findall(r'(\\([^()]+?\\)|[^()])', chars)
            ]
''', '''            {
                re.sub(r'[()]', '', s)
                for s in re.findall(r'(\\([^()]+?\\)|[^()])', chars)
            }
'''), file=RA)
b('C02', 'guesses-set', ('''    guesses2 = sorted(guesses2, key=itemgetter(0), reverse=True)
''', '''    guesses2 = sorted(set(guesses2), key=itemgetter(0), reverse=True)
'''), file=N)
b('C02', 'phonet-set', ('''    guesses2 = sorted(guesses2, key=itemgetter(0), reverse=True)
''', '''    guesses2 = sorted({*guesses2}, key=itemgetter(0), reverse=True)
'''), file=PH)
b('C02', 'hash-tie', ('''            heapq.heappush(root_scores, (score, word))
''', '''            heapq.heappush(root_scores, (score, hash(word.stem), word))
'''), ('heapq.heappushpop(root_scores, (score, word))', 'heapq.heappushpop(root_scores, (score, hash(word.stem), word))'),
  ('for (_, root) in roots:', 'for (*_, root) in roots:'), file=N)
b('C02', 'id-tie', ('''            heapq.heappush(root_scores, (score, word))
''', '''            heapq.heappush(root_scores, (score, id(word), word))
'''), ('heapq.heappushpop(root_scores, (score, word))', 'heapq.heappushpop(root_scores, (score, id(word), word))'),
  ('for (_, root) in roots:', 'for (*_, root) in roots:'), file=N)
b('C02', 'sort-key-only', ('roots = heapq.nlargest(MAX_ROOTS, root_scores)', 'roots = heapq.nlargest(MAX_ROOTS, set(root_scores), key=itemgetter(0))'), file=N)
b('C02', 'guess-key', ('guesses = heapq.nlargest(MAX_GUESSES, guess_scores)', 'guesses = heapq.nlargest(MAX_GUESSES, guess_scores, key=itemgetter(0))'), file=N)
b('C02', 'guess-list', ('heapq.heappush(guess_scores, (score, form, form))', 'guess_scores.append((score, form, form))'),
  ('guesses = heapq.nlargest(MAX_GUESSES, guess_scores)', 'guesses = guess_scores[:MAX_GUESSES]'), file=N)
b('C02', 'deadline', ('import dataclasses\n', 'import dataclasses\nimport time\n'), ('''        ngrams_seen = 0
''', '''        ngrams_seen = 0
        started = time.time()
'''), ('if ngrams_seen >= self.aff.MAXNGRAMSUGS:', 'if ngrams_seen >= self.aff.MAXNGRAMSUGS or time.time() - started > 0.5:'), file=S)
b('C02', 'environ', ('import dataclasses\n', 'import dataclasses\nimport os\n'), ('''        return '-' in self.aff.TRY or 'a' in self.aff.TRY
''', '''        return '-' in self.aff.TRY or 'a' in self.aff.TRY or os.environ.get('LANG', '').startswith('en')
'''), file=S)
b('C02', 'flag-pop', ('''        homonyms = self.homonyms(stem)
''', '''        homonyms = self.homonyms(stem)
        flag = flag or next(iter(homonyms[0].flags))
'''), file=DIC)
b('C02', 'shuffle', ('import heapq\n', 'import heapq\nimport random\n'), ('''    guesses2 = sorted(guesses2''', '''    random.shuffle(guesses2)
    guesses2 = sorted(guesses2'''), file=N)
b('C02', 'handled-last', ('''        ngrams_seen = 0
''', '''        ngrams_seen = 0
        last = [*handled][-1:]
        if last and last[0] == word.lower():
            return
'''), file=S)
b('C02', 'lower-set', ('''            result = [word, *self.lower(word), *self.capitalize(word)]

        return (captype, result)

    def coerce''', '''            result = [*{word, *self.lower(word), *self.capitalize(word)}]

        return (captype, result)

    def coerce'''), file=CAP)
b('C02', 'edits-dedup', ('for suggestion in filter_suggestions(self.edits(word)):', 'for suggestion in filter_suggestions({s.text: s for s in {*self.edits(word)}}.values()):'), file=S)
b('C02', 'known-first', ('''        if not any(known_word in value for known_word in known):
''', '''        if not known or not next(iter(known)) in value:
'''), file=N)
b('C02', 'swap-set', ('''        yield word[:i] + word[i+1] + word[i] + word[i+2:]
''', '''        yield word[:i] + ''.join({word[i+1], word[i]}) + word[i+2:]
'''), file=P)
b('C02', 'forms-first', ('''    return res

''', '''    return res[:10]

'''), file=N)
FR = 'readers/file_reader.py'
b('C27', 'append-mode', ("open(path, 'r', encoding=encoding", "open(path, 'a+', encoding=encoding"), file=FR)
b('C27', 'rplus', ("open(path, 'r', encoding=encoding", "open(path, 'r+', encoding=encoding"), file=FR)
b('C27', 'int-eval', ('return int(value)\n', 'return eval(value)\n'), file=RA)
b('C27', 'log', ('''    result = dic.Dic(words=[])
''', '''    result = dic.Dic(words=[])
    log = open('/tmp/spylls.log', 'w')
    print('reading', file=log)
'''), file=RD)
b('C27', 'env-path', ('''        for folder in cls.PATHES:
''', '''        for folder in [*os.environ.get('DICPATH', '').split(':'), *cls.PATHES]:
'''), file=D)
b('C27', 'getenv', ('''        for folder in cls.PATHES:
''', '''        for folder in [os.getenv('DICPATH') or '.', *cls.PATHES]:
'''), file=D)
b('C27', 'default-file', ('''        aff, context = readers.read_aff(FileReader(path + '.aff'))
''', '''        if not os.path.exists(path + '.aff'):
            path = os.path.join(os.getcwd(), 'default')
        aff, context = readers.read_aff(FileReader(path + '.aff'))
'''), file=D)
b('C27', 'other-dic', ("FileReader(path + '.dic', encoding", "FileReader(path.rsplit('_', 1)[0] + '.dic', encoding"), file=D)
b('C27', 'user-dic', ('''    result = dic.Dic(words=[])
''', '''    result = dic.Dic(words=[])
    with open('user.dic') as user:
        for stem in user:
            result.append(dic.Word(stem=stem.strip(), flags=set(), data={}, captype=CapType.NO, alt_spellings=[]), lower=[])
'''), file=RD)
b('C27', 'reload', ('''        return self.lookuper(word)
''', '''        if not self.dic.words:
            self.dic = readers.read_dic(FileReader('default.dic'), aff=self.aff, context=None)
        return self.lookuper(word)
'''), file=D)
b('C27', 'extract', ('''        file = zipfile.ZipFile(path)
''', '''        file = zipfile.ZipFile(path)
        file.extractall()
'''), file=D)
b('C27', 'zip-append', ('zipfile.ZipFile(path)', "zipfile.ZipFile(path, 'a')"), file=D)
b('C27', 'pickle', ('import io\n', 'import io\nimport pickle\n'), ('''    def __next__(self):
''', '''    def cached(self, path):
        return pickle.load(open(path, 'rb'))

    def __next__(self):
'''), file=FR)
b('C27', 'system', ('import glob\n', 'import glob\nimport subprocess\n'), ("pathes = glob.glob(f'{folder}/{name}.aff')", "pathes = subprocess.check_output(f'ls {folder}/{name}.aff', shell=True).split()"), file=D)
b('C27', 'popen', ("pathes = glob.glob(f'{folder}/{name}.aff')", "pathes = os.popen(f'ls {folder}/{name}.aff').read().split()"), file=D)
b('C27', 'expandvars', ('''        aff, context = readers.read_aff(FileReader(path + '.aff'))
''', '''        path = os.path.expandvars(path)
        aff, context = readers.read_aff(FileReader(path + '.aff'))
'''), file=D)
b('C27', 'reset-other', ('self.reset_io(self._open(self.path, encoding))', "self.reset_io(self._open(self.path + '.' + encoding, encoding))"), file=FR)
b('C27', 'zip-other', ('zipfile.ZipFile(zipname).open(path)', 'zipfile.ZipFile(zipname).open(zipfile.ZipFile(zipname).namelist()[0])'), file=FR)
b('C27', 'recursive-glob', ("f'{folder}/{name}.aff'", "f'{folder}/{name}*.aff'"), file=D)
b('C27', 'phone-eval', ('''            return self.search.match(word, pos)
''', '''            return eval('self.search.match(word, pos)')
'''), file=AFF)
b('C02', 'sort-hash', ('        return (captype, result)\n\n    def corrections', '        result.sort(key=hash)\n\n        return (captype, result)\n\n    def corrections'), file=CAP)
b('C02', 'sorted-id', ('for suggestion in filter_suggestions(self.edits(word)):', 'for suggestion in filter_suggestions(sorted(self.edits(word), key=lambda s: id(s))):'), file=S)

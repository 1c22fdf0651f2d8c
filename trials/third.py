"""Behaviour-preserving edits: helpers extracted, statements reordered, loops rewritten (the third batch)"""
TRIALS = []

L = 'algo/lookup.py'
S = 'algo/suggest.py'
P = 'algo/permutations.py'
CAP = 'algo/capitalization.py'
SM = 'algo/string_metrics.py'
NG = 'algo/ngram_suggest.py'
PH = 'algo/phonet_suggest.py'
TRIE = 'algo/trie.py'
DA = 'data/aff.py'
DD = 'data/dic.py'
RA = 'readers/aff.py'
RD = 'readers/dic.py'
RF = 'readers/file_reader.py'
D = 'dictionary.py'


def t(name, *pairs, file=L):
    TRIALS.append((name, file, pairs))


# helpers
t('h-clean', ('''        if self.aff.ICONV:
            word = self.aff.ICONV(word)
        if self.aff.IGNORE:
            word = word.translate(self.aff.IGNORE.tr)
        if NUMBER''', '''        word = self._cleanup(word)
        if NUMBER'''), ('''    def break_word(self, text, depth=0):
''', '''    def _cleanup(self, text):
        iconv, ignore = self.aff.ICONV, self.aff.IGNORE
        if iconv:
            text = iconv(text)
        if ignore:
            text = text.translate(ignore.tr)
        return text
    def break_word(self, text, depth=0):
'''))
t('h-all-parts', ('''        for parts in self.break_word(word):
            if all(is_correct(part) for part in parts if part):
                return True
        return False
''', '''        def all_correct(parts):
            for part in parts:
                if part and not is_correct(part):
                    return False
            return True
        return any(all_correct(parts) for parts in self.break_word(word))
'''))
t('h-sharps', ('''                    if (self.aff.CHECKSHARPS and self.aff.KEEPCASE and  # pylint: disable=too-many-boolean-expressions
                            'ß' in form.in_dictionary.stem and self.aff.KEEPCASE in form.flags() and   # type: ignore
                            captype == CapType.ALL and 'ß' in word):
                        continue
                    yield form
''', '''                    if not self._is_bad_sharps(form, captype, word):
                        yield form
'''), ('''    def affix_forms(self,
''', '''    def _is_bad_sharps(self, form, captype, word):
        keepcase = self.aff.KEEPCASE
        if not self.aff.CHECKSHARPS or not keepcase:
            return False
        if captype != CapType.ALL or 'ß' not in word:
            return False
        return 'ß' in form.in_dictionary.stem and keepcase in form.flags()
    def affix_forms(self,
'''))
t('h-candidates', ('''            for homonym in homonyms:
                candidate = form.replace(in_dictionary=homonym)
                if is_good_form(candidate):
                    found = True
                    yield candidate
            if compoundpos == CompoundPos.BEGIN and self.aff.FORCEUCASE and captype == CapType.INIT:
                for homonym in self.dic.homonyms(form.stem.lower()):
                    candidate = form.replace(in_dictionary=homonym)
                    if is_good_form(candidate):
                        found = True
                        yield candidate
''', '''            sources = [homonyms]
            if compoundpos == CompoundPos.BEGIN and self.aff.FORCEUCASE and captype == CapType.INIT:
                sources.append(self.dic.homonyms(form.stem.lower()))
            for source in sources:
                for homonym in source:
                    candidate = form.replace(in_dictionary=homonym)
                    if is_good_form(candidate):
                        found = True
                        yield candidate
'''))
t('h-forbidden', ('''            if not with_forbidden and self.aff.FORBIDDENWORD and self.aff.FORBIDDENWORD in form.in_dictionary.flags:
                return False
''', '''            if not with_forbidden and has_forbidden(form.in_dictionary):
                return False
'''), ('''        def is_good_form(form, **kwarg):
''', '''        def has_forbidden(entry):
            flag = self.aff.FORBIDDENWORD
            return bool(flag) and flag in entry.flags
        def is_good_form(form, **kwarg):
'''), ('''            if (not with_forbidden and self.aff.FORBIDDENWORD and
                    (compoundpos or form.has_affixes()) and
                    any(self.aff.FORBIDDENWORD in homonym.flags for homonym in homonyms)):
                return
''', '''            if not with_forbidden and (compoundpos or form.has_affixes()) and any(map(has_forbidden, homonyms)):
                return
'''))
t('h-needaffix', ('''        if aff.NEEDAFFIX:
            if aff.NEEDAFFIX in root_flags and not form.has_affixes():
                return False
            if form.has_affixes() and all(aff.NEEDAFFIX in a.flags for a in form.all_affixes()):
                return False
''', '''        if aff.NEEDAFFIX:
            if not form.has_affixes():
                if aff.NEEDAFFIX in root_flags:
                    return False
            else:
                carriers = [a for a in form.all_affixes() if aff.NEEDAFFIX in a.flags]
                if len(carriers) == len(form.all_affixes()):
                    return False
'''))
t('h-too-short', ('''        if len(word_rest) < aff.COMPOUNDMIN * 2 or (aff.COMPOUNDWORDMAX and depth + 1 >= aff.COMPOUNDWORDMAX):
            return
''', '''        if not self._can_split(word_rest, depth + 1):
            return
'''), ('''        if len(word_rest) < aff.COMPOUNDMIN * 2 or \\
                (aff.COMPOUNDWORDMAX and len(prev_parts) + 1 >= aff.COMPOUNDWORDMAX):
            return
''', '''        if not self._can_split(word_rest, len(prev_parts) + 1):
            return
'''), ('''    def compounds_by_rules(self,
''', '''    def _can_split(self, text, count):
        if len(text) < self.aff.COMPOUNDMIN * 2:
            return False
        limit = self.aff.COMPOUNDWORDMAX
        return not limit or count < limit
    def compounds_by_rules(self,
'''))
t('h-splits', ('''        for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
            beg = word_rest[0:pos]
            for homonym in good_homonyms(beg):
                parts = [*prev_parts, homonym]
''', '''        for beg, tail in self._splits(word_rest):
            for homonym in good_homonyms(beg):
                parts = [*prev_parts, homonym]
'''), ('''                    for rest in self.compounds_by_rules(word_rest[pos:], rules=compoundrules, prev_parts=parts,
''', '''                    for rest in self.compounds_by_rules(tail, rules=compoundrules, prev_parts=parts,
'''), ('''        for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
            beg = word_rest[0:pos]
            rest = word_rest[pos:]
''', '''        for beg, rest in self._splits(word_rest):
'''), ('''    def compounds_by_rules(self,
''', '''    def _splits(self, text):
        size = self.aff.COMPOUNDMIN
        for pos in range(size, len(text) - size + 1):
            yield text[:pos], text[pos:]
    def compounds_by_rules(self,
'''))
t('h-bad-pair', ('''            if aff.CHECKCOMPOUNDTRIPLE:
                if len(set(left[-2:] + right[:1])) == 1 or len(set(left[-1:] + right[:2])) == 1:
                    return True
            if aff.CHECKCOMPOUNDCASE:
                right_c = right[0]
                left_c = left[-1]
                if (right_c == right_c.upper() or left_c == left_c.upper()) and right_c != '-' and left_c != '-':
                    return True
''', '''            if self._is_bad_border(left, right):
                return True
'''), ('''    def is_bad_compound(self, compound: CompoundForm, captype: CapType) -> bool:
''', '''    def _is_bad_border(self, left, right):
        if self.aff.CHECKCOMPOUNDTRIPLE:
            triples = (left[-2:] + right[:1], left[-1:] + right[:2])
            if any(len(set(triple)) == 1 for triple in triples):
                return True
        if self.aff.CHECKCOMPOUNDCASE:
            before, after = left[-1], right[0]
            if before != '-' and after != '-':
                return before == before.upper() or after == after.upper()
        return False
    def is_bad_compound(self, compound: CompoundForm, captype: CapType) -> bool:
'''))
t('h-affixes-of', ('''        possible_suffixes = (
            suffix
            for suffix in self.aff.suffixes_index.lookup(word[::-1])
            if good_suffix(suffix)
        )
        for suffix in possible_suffixes:
''', '''        for suffix in self.aff.suffixes_index.lookup(word[::-1]):
            if not good_suffix(suffix):
                continue
'''))
t('h-captype', ('''        captype, variants = self.aff.casing.corrections(word)
        if self.aff.FORCEUCASE and captype == CapType.NO:
            for capitalized in self.aff.casing.capitalize(word):
                if is_good_suggestion(capitalized):
                    yield from handle_found(Suggestion(capitalized.capitalize(), 'forceucase'))
                    return  # No more need to check anything
''', '''        casing = self.aff.casing
        captype, variants = casing.corrections(word)
        if self.aff.FORCEUCASE and captype is CapType.NO:
            good = [text for text in casing.capitalize(word) if is_good_suggestion(text)]
            if good:
                yield from handle_found(Suggestion(good[0].capitalize(), 'forceucase'))
                return
'''), file=S)
t('h-keepcase', ('''            if (self.aff.KEEPCASE and self.dic.has_flag(text, self.aff.KEEPCASE) and not
                    (self.aff.CHECKSHARPS and 'ß' in text)):
                pass
            else:
                text = self.aff.casing.coerce(text, captype)
                if text != suggestion.text and is_forbidden(text):
                    text = suggestion.text
''', '''            keeps = self.aff.KEEPCASE and self.dic.has_flag(text, self.aff.KEEPCASE)
            if keeps and self.aff.CHECKSHARPS and 'ß' in text:
                keeps = False
            if not keeps:
                coerced = self.aff.casing.coerce(text, captype)
                if coerced == text or not is_forbidden(coerced):
                    text = coerced
'''), file=S)
t('h-edits-once', ('''            for suggestion in self.edit_suggestions(variant, handle_found, limit=MAXSUGGESTIONS, compounds=False):
                yield suggestion
                good_edits_found = good_edits_found or (suggestion.kind in GOOD_EDITS)
''', '''            simple = self.edit_suggestions(variant, handle_found, compounds=False, limit=MAXSUGGESTIONS)
            for suggestion in simple:
                yield suggestion
                if suggestion.kind in GOOD_EDITS:
                    good_edits_found = True
'''), file=S)
t('h-chunks', ('''            chunks = word.split('-')
            for idx, chunk in enumerate(chunks):
                if not is_good_suggestion(chunk):
                    for sug in self(chunk):
                        candidate = '-'.join([*chunks[:idx], sug, *chunks[idx+1:]])
                        if self.lookup(candidate, allow_nosuggest=False):
                            yield from handle_found(Suggestion(candidate, 'dashes'))
                    break
''', '''            chunks = word.split('-')
            bad = next((idx for idx, chunk in enumerate(chunks) if not is_good_suggestion(chunk)), None)
            if bad is not None:
                for sug in self(chunks[bad]):
                    candidate = '-'.join(chunks[:bad] + [sug] + chunks[bad + 1:])
                    if self.lookup(candidate, allow_nosuggest=False):
                        yield from handle_found(Suggestion(candidate, 'dashes'))
'''), file=S)
t('h-simple-edits', ('''        for suggestion in pmt.extrachar(word):
            yield Suggestion(suggestion, 'extrachar')
        for suggestion in pmt.forgotchar(word, self.aff.TRY):
            yield Suggestion(suggestion, 'forgotchar')
        for suggestion in pmt.movechar(word):
            yield Suggestion(suggestion, 'movechar')
        for suggestion in pmt.badchar(word, self.aff.TRY):
            yield Suggestion(suggestion, 'badchar')
''', '''        def of_kind(texts, kind):
            return (Suggestion(text, kind) for text in texts)
        yield from of_kind(pmt.extrachar(word), 'extrachar')
        yield from of_kind(pmt.forgotchar(word, self.aff.TRY), 'forgotchar')
        yield from of_kind(pmt.movechar(word), 'movechar')
        yield from of_kind(pmt.badchar(word, self.aff.TRY), 'badchar')
'''), file=S)
t('h-good', ('''            if compounds:
                return any(self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False, affix_forms=False))
            return any(self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False, compound_forms=False))
''', '''            forms = self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False,
                                           affix_forms=not compounds, compound_forms=compounds)
            for _ in forms:
                return True
            return False
'''), file=S)
t('h-multi', ('''                if isinstance(suggestion, MultiWordSuggestion):
                    if all(is_good_suggestion(word) for word in suggestion.words):
                        yield suggestion.stringify()
                        if suggestion.allow_dash:
                            yield suggestion.stringify('-')
                else:
                    if is_good_suggestion(suggestion.text):
                        yield suggestion
''', '''                if not isinstance(suggestion, MultiWordSuggestion):
                    if is_good_suggestion(suggestion.text):
                        yield suggestion
                    continue
                if not all(map(is_good_suggestion, suggestion.words)):
                    continue
                for separator in [' ', '-'] if suggestion.allow_dash else [' ']:
                    yield suggestion.stringify(separator)
'''), file=S)
t('h-ng-best', ('''        score = root_score(misspelling, word.stem)
        if word.alt_spellings:
            for variant in word.alt_spellings:
                score = max(score, root_score(misspelling, variant))
        if len(root_scores) > MAX_ROOTS:
            heapq.heappushpop(root_scores, (score, word))
        else:
            heapq.heappush(root_scores, (score, word))
''', '''        score = best_score(misspelling, word)
        keep(root_scores, (score, word))
'''), ('''def root_score(word1: str, word2: str) -> float:
''', '''def best_score(misspelling, word):
    score = root_score(misspelling, word.stem)
    for variant in word.alt_spellings or []:
        score = max(score, root_score(misspelling, variant))
    return score
def keep(heap, item):
    if len(heap) > MAX_ROOTS:
        heapq.heappushpop(heap, item)
    else:
        heapq.heappush(heap, item)
def root_score(word1: str, word2: str) -> float:
'''), file=NG)
t('h-ng-compared', ('''    for (_, root) in roots:
        if root.alt_spellings:
            for variant in root.alt_spellings:
                score = rough_affix_score(misspelling, variant)
                if score > threshold:
                    heapq.heappush(guess_scores, (score, variant, root.stem))
        for form in forms_for(root, prefixes, suffixes, similar_to=misspelling):
            score = rough_affix_score(misspelling, form.lower())
            if score > threshold:
                heapq.heappush(guess_scores, (score, form, form))
''', '''    def consider(text, compared, real):
        score = rough_affix_score(misspelling, text)
        if score > threshold:
            heapq.heappush(guess_scores, (score, compared, real))
    for (_, root) in roots:
        for variant in root.alt_spellings:
            consider(variant, variant, root.stem)
        for form in forms_for(root, prefixes, suffixes, similar_to=misspelling):
            consider(form.lower(), form, form)
'''), file=NG)
t('h-forms-affixes', ('''    suffixes = [
        suffix
        for flag in word.flags
        for suffix in all_suffixes.get(flag, [])
        if suffix.cond_regexp.search(word.stem) and similar_to.endswith(suffix.add)
    ]
''', '''    suffixes = []
    for flag in word.flags:
        for suffix in all_suffixes.get(flag, []):
            if similar_to.endswith(suffix.add) and suffix.cond_regexp.search(word.stem):
                suffixes.append(suffix)
'''), file=NG)
t('h-filter-state', ('''        if seen and score <= 1000:
            return
        if score > 1000:
            seen = True
        elif score < -100:
            if found > 0 or onlymaxdiff:
                return
            seen = True
''', '''        good, bad = score > 1000, score < -100
        if seen and not good:
            return
        if bad and (found or onlymaxdiff):
            return
        seen = seen or good or bad
'''), file=NG)
t('h-conv-find', ('''            matches = sorted(
                [(search, pattern, replacement)
                 for search, pattern, replacement in self.table
                 if search and pattern.match(word, pos)],
                key=lambda r: len(r[0]),
                reverse=True
            )
            if matches:
                search, pattern, replacement = matches[0]
                res += replacement
                pos += len(search)
            else:
                res += word[pos]
                pos += 1
''', '''            row = self._longest(word, pos)
            if row is None:
                res += word[pos]
                pos += 1
            else:
                res += row[2]
                pos += len(row[0])
'''), ('''@dataclass
class PhonetTable:
''', '''    def _longest(self, word, pos):
        best = None
        for row in self.table:
            if row[0] and row[1].match(word, pos) and (best is None or len(row[0]) > len(best[0])):
                best = row
        return best
@dataclass
class PhonetTable:
'''), file=DA)
t('h-index-of', ('''        suffixes = defaultdict(list)
        for suf in itertools.chain.from_iterable(self.SFX.values()):
            suffixes[suf.add[::-1]].append(suf)
        self.suffixes_index = Trie(suffixes)
        prefixes = defaultdict(list)
        for pref in itertools.chain.from_iterable(self.PFX.values()):
            prefixes[pref.add].append(pref)
        self.prefixes_index = Trie(prefixes)
''', '''        self.suffixes_index = self._index(self.SFX, lambda affix: affix.add[::-1])
        self.prefixes_index = self._index(self.PFX, lambda affix: affix.add)
'''), ('''        else:
            self.casing = Casing()
''', '''        else:
            self.casing = Casing()
    @staticmethod
    def _index(table, key):
        index = Trie()
        for affixes in table.values():
            for affix in affixes:
                index.put(key(affix), affix)
        return index
'''), file=DA)
t('h-reader-line', ('''        directive, value = dir_value
        if directive in ['SFX', 'PFX']:
''', '''        apply(data, *dir_value)
        directive, value = dir_value
        if False:
'''), ('''            if value:
                data[directive][value[0].flag] = value
        else:
            data[directive] = value
''', '''            pass
'''), ('''def read_directive(''', '''def apply(data, directive, value):
    if directive in ['SFX', 'PFX']:
        if value:
            data[directive][value[0].flag] = value
    else:
        data[directive] = value
def read_directive('''), file=RA)
t('h-dic-entry', ('''        word_obj = dic.Word(
            stem=word,
            flags={*context.parse_flags(flags)},
            data=data,
            captype=captype,
            alt_spellings=alt_spellings
        )
        result.append(word_obj, lower=lower)
''', '''        entry = make_entry(word, flags, data, captype, alt_spellings, context)
        result.append(entry, lower=lower)
'''), ('''def parse_data(text''', '''def make_entry(stem, flags, data, captype, alt_spellings, context):
    return dic.Word(stem=stem, flags=set(context.parse_flags(flags)), data=data, alt_spellings=alt_spellings, captype=captype)
def parse_data(text'''), file=RD)
# reordered
t('r-isgood', ('''        if form.prefix and form.prefix.flag not in all_flags:
            return False
        if form.suffix and form.suffix.flag not in all_flags:
            return False
''', '''        if form.suffix and form.suffix.flag not in all_flags:
            return False
        if form.prefix and form.prefix.flag not in all_flags:
            return False
'''))
t('r-bad', ('''            if aff.COMPOUNDFORBIDFLAG:
                if self.dic.has_flag(left, aff.COMPOUNDFORBIDFLAG):
                    return True
            if any(self.affix_forms(left + ' ' + right, captype=captype)):
                return True
''', ''''''), ('''            if aff.CHECKCOMPOUNDDUP:
                if left == right and idx == len(compound.parts) - 2:
                    return True
''', '''            if aff.CHECKCOMPOUNDDUP:
                if left == right and idx == len(compound.parts) - 2:
                    return True
            if any(self.affix_forms(f'{left} {right}', captype=captype)):
                return True
            if aff.COMPOUNDFORBIDFLAG and self.dic.has_flag(left, aff.COMPOUNDFORBIDFLAG):
                return True
'''))
t('r-post-init', ('''        self.suffixes_index = Trie(suffixes)
        prefixes = defaultdict(list)
        for pref in itertools.chain.from_iterable(self.PFX.values()):
            prefixes[pref.add].append(pref)
        self.prefixes_index = Trie(prefixes)
''', '''        prefixes = defaultdict(list)
        for pref in itertools.chain.from_iterable(self.PFX.values()):
            prefixes[pref.add].append(pref)
        self.prefixes_index = Trie(prefixes)
        self.suffixes_index = Trie(suffixes)
'''), file=DA)
t('r-context', ('''        if directive == 'FLAG':
            context.flag_format = value
        elif directive == 'AF':
            context.flag_synonyms = value
        elif directive == 'SET':
            context.encoding = value
            source.reset_encoding(value)
        elif directive == 'IGNORE':
            context.ignore = value
''', '''        if directive == 'SET':
            context.encoding = value
            source.reset_encoding(value)
        elif directive == 'IGNORE':
            context.ignore = value
        elif directive == 'AF':
            context.flag_synonyms = value
        elif directive == 'FLAG':
            context.flag_format = value
'''), file=RA)
t('r-dic-fields', ('''        captype = aff.casing.guess(word)
        lower = aff.casing.lower(word) if captype != CapType.NO else [word]
        alt_spellings = []
''', '''        alt_spellings = []
        captype = aff.casing.guess(word)
        lower = [word] if captype == CapType.NO else aff.casing.lower(word)
'''), file=RD)
t('r-append', ('''        self.words.append(word)
        self.index[word.stem].append(word)
        for lword in lower:
            self.lowercase_index[lword].append(word)
''', '''        for lword in lower:
            self.lowercase_index[lword].append(word)
        self.index[word.stem].append(word)
        self.words.append(word)
'''), file=DD)
t('r-value', ('''    if directive in ['SET', 'FLAG', 'KEY', 'TRY', 'WORDCHARS', 'LANG']:
        return value
    if directive == 'IGNORE':
        return aff.Ignore(value)
''', '''    if directive == 'IGNORE':
        return aff.Ignore(value)
    if directive in {'LANG', 'WORDCHARS', 'TRY', 'KEY', 'FLAG', 'SET'}:
        return value
'''), file=RA)
# loops
t('l-extra', ('''    for i in range(len(word)):
        yield word[:i] + word[i+1:]
''', '''    i = 0
    while i < len(word):
        yield word[:i] + word[i + 1:]
        i += 1
'''), file=P)
t('l-forgot', ('''    for c in trystring:
        for i in range(len(word) + 1):
            yield word[:i] + c + word[i:]
''', '''    splits = [(word[:i], word[i:]) for i in range(len(word) + 1)]
    for c in trystring:
        for before, after in splits:
            yield before + c + after
'''), file=P)
t('l-badchar', ('''        for i in reversed(range(len(word))):
            if word[i] == c:
                continue
            yield word[:i] + c + word[i+1:]
''', '''        for i in range(len(word) - 1, -1, -1):
            if word[i] != c:
                yield word[:i] + c + word[i + 1:]
'''), file=P)
t('l-map', ('''                        for variant in mapchars_internal(replaced, pos + len(other)):
                            yield variant
''', '''                        yield from mapchars_internal(replaced, start=pos + len(other))
'''), file=P)
t('l-rules', ('''                if any(r.fullmatch(flag_sets) for r in rules):
                    yield CompoundForm([AffixForm(word_rest, word_rest)])
''', '''                for rule in rules:
                    if rule.fullmatch(flag_sets):
                        yield CompoundForm([AffixForm(word_rest, word_rest)])
                        break
'''))
t('l-phone', ('''        for search, replacement in self.table:
            self.rules[search[0]].append(self.parse_rule(search, replacement))
''', '''        for row in self.table:
            search, replacement = row
            rules = self.rules[search[0]]
            rules.append(self.parse_rule(search, replacement))
'''), file=DA)
t('l-aff', ('''    for (_, line) in source:
        dir_value = read_directive(source, line, context=context)
        if not dir_value:
            continue
        directive, value = dir_value
''', '''    for (_, line) in source:
        directive, value = read_directive(source, line, context=context) or (None, None)
        if directive is None:
            continue
'''), file=RA)
t('l-skip', ('''        for _ in range(self.line_no):
            self.io.readline()
''', '''        skipped = 0
        while skipped < self.line_no:
            self.io.readline()
            skipped += 1
'''), file=RF)
t('l-lcs', ('''    c = [[0 for j in range(n+1)] for i in range(m+1)]
''', '''    c = []
    for _ in range(m + 1):
        c.append([0] * (n + 1))
'''), file=SM)
t('l-ngram', ('''    for ngram_size in range(1, max_ngram_size + 1):
        ns = 0
        for pos in range(l1 - ngram_size + 1):
''', '''    ngram_size = 0
    while ngram_size < max_ngram_size:
        ngram_size += 1
        ns = 0
        for pos in range(0, l1 - ngram_size + 1):
'''), file=SM)
t('l-threshold', ('''    for start_pos in range(1, 4):
        mangled = list(word)
        for pos in range(start_pos, len(word), 4):
            mangled[pos] = '*'
        mangled_word = ''.join(mangled)
''', '''    for start_pos in (1, 2, 3):
        mangled_word = ''.join('*' if pos % 4 == start_pos else letter for pos, letter in enumerate(word))
'''), file=NG)
t('l-trie-put', ('''        cur = self.root
        for p in path:
            cur = cur.children[p]
        cur.payloads = payloads
''', '''        leaf = self.root
        for letter in path:
            leaf = leaf.children[letter]
        leaf.payloads = payloads
'''), file=TRIE)
t('l-system', ('''        for folder in cls.PATHES:
            pathes = glob.glob(f'{folder}/{name}.aff')
            if pathes:
                return cls.from_files(pathes[0].replace('.aff', ''))
        raise LookupError''', '''        found = [path for folder in cls.PATHES for path in glob.glob(f'{folder}/{name}.aff')]
        if found:
            return cls.from_files(found[0].replace('.aff', ''))
        raise LookupError'''), file=D)
t('l-parse', ('''            parts.extend([tag for tag in aliases[tag_str] if not (tag.isdigit() and tag in parts)])
''', '''            for alias in aliases[tag_str]:
                if not alias.isdigit() or alias not in parts:
                    parts.append(alias)
'''), file=RD)
t('l-flags', ('''        if not nested:
                for form2''', ''''''))
TRIALS.pop()

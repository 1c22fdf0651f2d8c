"""Behaviour-preserving edits: other idioms (walrus, try, match, partial, operators), wider rewritings (the eighth batch)"""
TRIALS = []

L = 'algo/lookup.py'
S = 'algo/suggest.py'
P = 'algo/permutations.py'
CAP = 'algo/capitalization.py'
SM = 'algo/string_metrics.py'
NG = 'algo/ngram_suggest.py'
PH = 'algo/phonet_suggest.py'
TR = 'algo/trie.py'
DA = 'data/aff.py'
DD = 'data/dic.py'
RA = 'readers/aff.py'
RD = 'readers/dic.py'
RF = 'readers/file_reader.py'
D = 'dictionary.py'


def t(name, *pairs, file=S):
    TRIALS.append((name, file, pairs))


t('number-walrus', ('''        if self.aff.ICONV:
            word = self.aff.ICONV(word)
        if self.aff.IGNORE:
            word = word.translate(self.aff.IGNORE.tr)
        if NUMBER_REGEXP.fullmatch(word):
            return True
''', '''        word = self.prepare(word)
        if NUMBER_REGEXP.fullmatch(word) is not None:
            return True
'''), ('''    def break_word(self''', '''    def prepare(self, word: str) -> str:
        if (table := self.aff.ICONV):
            word = table(word)
        if (ignore := self.aff.IGNORE):
            word = word.translate(ignore.tr)
        return word

    def break_word(self'''), file=L)
t('break-finditer', ('''            for m in pat.regexp.finditer(text):
                start = text[:m.start(1)]
                rest = text[m.end(1):]
                for breaking in self.break_word(rest, depth=depth+1):
                    yield [start, *breaking]
''', '''            for m in pat.regexp.finditer(text):
                begin, end = m.span(1)
                for breaking in self.break_word(text[end:], depth + 1):
                    yield [text[:begin]] + breaking
'''), file=L)
t('break-depth', ('''        if depth > 10:
            return
        yield [text]
        for pat in self.aff.BREAK:
            for m in pat.regexp.finditer(text):
                start = text[:m.start(1)]
                rest = text[m.end(1):]
                for breaking in self.break_word(rest, depth=depth+1):
                    yield [start, *breaking]
''', '''        if depth <= 10:
            yield [text]
            matches = (m for pat in self.aff.BREAK for m in pat.regexp.finditer(text))
            for m in matches:
                start, rest = text[:m.start(1)], text[m.end(1):]
                yield from ([start, *breaking] for breaking in self.break_word(rest, depth=depth+1))
'''), file=L)
t('good-forms-captype', ('''        if capitalization:
            captype, variants = self.aff.casing.variants(word)
        else:
            captype = self.aff.casing.guess(word)
            variants = [word]
''', '''        casing = self.aff.casing
        captype, variants = casing.variants(word) if capitalization else (casing.guess(word), [word])
'''), file=L)
t('forms-chain', ('''            if compound_forms:
                yield from self.compound_forms(variant, captype=captype, allow_nosuggest=allow_nosuggest)
''', '''            if not compound_forms:
                continue
            for compound in self.compound_forms(variant, captype, allow_nosuggest):
                yield compound
'''), file=L)
t('forbidden-compound', ('''        if self.aff.FORBIDDENWORD and any(self.aff.FORBIDDENWORD in candidate.flags()
                                          for candidate in
                                          self.affix_forms(word, captype=captype, with_forbidden=True)):
            return
''', '''        forbidden = self.aff.FORBIDDENWORD
        if forbidden:
            for candidate in self.affix_forms(word, captype=captype, with_forbidden=True):
                if forbidden in candidate.flags():
                    return
'''), file=L)
t('rules-helper', ('''            for homonym in good_homonyms(word_rest):
                parts = [*prev_parts, homonym]
                flag_sets = [w.flags for w in parts]
                if any(r.fullmatch(flag_sets) for r in rules):
                    yield CompoundForm([AffixForm(word_rest, word_rest)])
''', '''            previous_flags = [w.flags for w in prev_parts]
            for homonym in good_homonyms(word_rest):
                flag_sets = previous_flags + [homonym.flags]
                if any(r.fullmatch(flag_sets) for r in rules):
                    yield CompoundForm(parts=[AffixForm(text=word_rest, stem=word_rest)])
'''), file=L)
t('rules-default', ('''        aff = self.aff
        if rules is None:
            rules = self.aff.COMPOUNDRULE
''', '''        aff = self.aff
        rules = aff.COMPOUNDRULE if rules is None else rules
'''), file=L)
t('rules-homonyms-filter', ('''            for homonym in self.dic.homonyms(text):
                if aff.FORBIDDENWORD and aff.FORBIDDENWORD in homonym.flags:
                    continue
                if not allow_nosuggest and aff.NOSUGGEST and aff.NOSUGGEST in homonym.flags:
                    continue
                yield homonym
''', '''            unwanted = {aff.FORBIDDENWORD}
            if not allow_nosuggest:
                unwanted.add(aff.NOSUGGEST)
            unwanted.discard(None)
            return [homonym for homonym in self.dic.homonyms(text) if not unwanted & homonym.flags]
'''), file=L)
t('good-form-needaffix', ('''        if aff.NEEDAFFIX:
            if aff.NEEDAFFIX in root_flags and not form.has_affixes():
                return False
            if form.has_affixes() and all(aff.NEEDAFFIX in a.flags for a in form.all_affixes()):
                return False
''', '''        if aff.NEEDAFFIX:
            if form.has_affixes():
                if not any(aff.NEEDAFFIX not in affix.flags for affix in form.all_affixes()):
                    return False
            elif aff.NEEDAFFIX in root_flags:
                return False
'''), file=L)
t('affix-flags-loop', ('''        if form.prefix and form.prefix.flag not in all_flags:
            return False
        if form.suffix and form.suffix.flag not in all_flags:
            return False
''', '''        for affix in (form.prefix, form.suffix):
            if affix and affix.flag not in all_flags:
                return False
'''), file=L)
t('vetoes-list', ('''            if any(self.affix_forms(left + ' ' + right, captype=captype)):
                return True
''', '''            pair = f'{left} {right}'
            if next(self.affix_forms(pair, captype), None):
                return True
'''), file=L)
t('dup-last', ('''            if aff.CHECKCOMPOUNDDUP:
                if left == right and idx == len(compound.parts) - 2:
                    return True
''', '''            if aff.CHECKCOMPOUNDDUP:
                is_last_pair = right_paradigm is compound.parts[-1]
                if left == right and idx + 2 == len(compound.parts):
                    return True
'''), file=L)
t('allowed-positions', ('''        suffix_allowed = compoundpos in [None, CompoundPos.END] or suffix_flags
        prefix_allowed = compoundpos in [None, CompoundPos.BEGIN] or prefix_flags
''', '''        whole = compoundpos is None
        suffix_allowed = whole or compoundpos == CompoundPos.END or bool(suffix_flags)
        prefix_allowed = whole or compoundpos == CompoundPos.BEGIN or bool(prefix_flags)
'''), file=L)
t('forbidden-affixes-continue', ('''            if found or compoundpos or captype != CapType.ALL:
                continue
            if self.aff.casing.guess(word) == CapType.NO:
                for homonym in self.dic.homonyms(form.stem, ignorecase=True):
                    candidate = form.replace(in_dictionary=homonym)
                    if is_good_form(candidate):
                        yield candidate
''', '''            if not found and not compoundpos and captype == CapType.ALL and \\
                    self.aff.casing.guess(word) == CapType.NO:
                for homonym in self.dic.homonyms(form.stem, ignorecase=True):
                    candidate = form.replace(in_dictionary=homonym)
                    if is_good_form(candidate):
                        yield candidate
'''), file=L)

t('handle-early', ('''            text = suggestion.text
            if (self.aff.KEEPCASE and self.dic.has_flag(text, self.aff.KEEPCASE) and not
                    (self.aff.CHECKSHARPS and 'ß' in text)):
                pass
            else:
                text = self.aff.casing.coerce(text, captype)
                if text != suggestion.text and is_forbidden(text):
                    text = suggestion.text
                if captype in [CapType.HUH, CapType.HUHINIT] and ' ' in text:
                    pos = text.find(' ')
                    if (pos + 1 < len(text) and pos < len(word) and
                            text[pos + 1] != word[pos] and text[pos + 1].upper() == word[pos]):
                        text = text[:pos+1] + word[pos] + text[pos+2:]
''', '''            text = recase(suggestion.text)
'''), ('''        def handle_found(suggestion, *, check_inclusion=False):
''', '''        def keeps_case(text):
            aff = self.aff
            if not aff.KEEPCASE or not self.dic.has_flag(text, aff.KEEPCASE):
                return False
            return not (aff.CHECKSHARPS and 'ß' in text)

        def recase(original):
            if keeps_case(original):
                return original
            text = self.aff.casing.coerce(original, captype)
            if text != original and is_forbidden(text):
                text = original
            if captype in [CapType.HUH, CapType.HUHINIT] and ' ' in text:
                pos = text.find(' ')
                if (pos + 1 < len(text) and pos < len(word) and
                        text[pos + 1] != word[pos] and text[pos + 1].upper() == word[pos]):
                    text = text[:pos+1] + word[pos] + text[pos+2:]
            return text

        def handle_found(suggestion, *, check_inclusion=False):
'''))
t('handled-list', ('''            if text in handled:
                return
            if check_inclusion and any(previous.lower() in text.lower() for previous in handled):
                return
            handled.add(text)
''', '''            if text in handled or (check_inclusion and includes_handled(text)):
                return
            handled.add(text)
'''), ('''        def handle_found(suggestion, *, check_inclusion=False):
''', '''        def includes_handled(text):
            text = text.lower()
            for previous in handled:
                if previous.lower() in text:
                    return True
            return False

        def handle_found(suggestion, *, check_inclusion=False):
'''))
t('ngram-stage-guard', ('''        ngrams_seen = 0
        for sug in self.ngram_suggestions(word, handled=handled):
            for res in handle_found(Suggestion(sug, 'ngram'), check_inclusion=True):
                ngrams_seen += 1
                yield res
            if ngrams_seen >= self.aff.MAXNGRAMSUGS:
                break
''', '''        ngrams_seen = 0
        for sug in self.ngram_suggestions(word, handled=handled):
            found = list(handle_found(Suggestion(sug, 'ngram'), check_inclusion=True))
            yield from found
            ngrams_seen += len(found)
            if ngrams_seen >= self.aff.MAXNGRAMSUGS:
                break
'''))
t('compounds-flag-name', ('''            nocompound = False
''', '''            try_compounds = True
'''), ('''                    nocompound = True
''', '''                    try_compounds = False
'''), ('''            if not nocompound:
''', '''            if try_compounds:
'''))
t('variant-first', ('''        for idx, variant in enumerate(variants):
            if idx > 0 and is_good_suggestion(variant):
                yield from handle_found(Suggestion(variant, 'case'))
''', '''        first = True
        for variant in variants:
            if not first and is_good_suggestion(variant):
                yield from handle_found(Suggestion(variant, 'case'))
            first = False
'''))
t('use-dash-any', ('''        return '-' in self.aff.TRY or 'a' in self.aff.TRY
''', '''        return any(char in self.aff.TRY for char in '-a')
'''))
t('ngram-known', ('''        if self.aff.MAXNGRAMSUGS == 0:
            return
        yield from ngram_suggest.ngram_suggest(
                    word.lower(),
                    dictionary_words=self.words_for_ngram,
                    prefixes=self.aff.PFX, suffixes=self.aff.SFX,
                    known={*(word.lower() for word in handled)},
''', '''        aff = self.aff
        if aff.MAXNGRAMSUGS == 0:
            return
        known = {text.lower() for text in handled}
        yield from ngram_suggest.ngram_suggest(
                    word.lower(),
                    dictionary_words=self.words_for_ngram,
                    prefixes=aff.PFX, suffixes=aff.SFX,
                    known=known,
'''))
t('repl-kinds', ('''            if isinstance(suggestion, list):
                yield Suggestion(' '.join(suggestion), 'replchars')
                yield MultiWordSuggestion(suggestion, 'replchars', allow_dash=False)
            else:
                yield Suggestion(suggestion, 'replchars')
''', '''            if isinstance(suggestion, str):
                yield Suggestion(suggestion, 'replchars')
                continue
            words = suggestion
            yield Suggestion(' '.join(words), 'replchars')
            yield MultiWordSuggestion(words, 'replchars', allow_dash=False)
'''))
t('twowords-dash', ('''        for words in pmt.twowords(word):
            yield Suggestion(' '.join(words), 'spaceword')
            if self.use_dash():
                yield Suggestion('-'.join(words), 'spaceword')
''', '''        separators = [' ']
        if self.use_dash():
            separators.append('-')
        for first, second in pmt.twowords(word):
            for separator in separators:
                yield Suggestion(first + separator + second, 'spaceword')
'''))
t('limit-guard', ('''        if limit <= 0:
            return
        count = 0
        for suggestion in filter_suggestions(self.edits(word)):
            for res in handle_found(suggestion):
                yield res
                count += 1
                if count >= limit:
                    return
''', '''        if limit < 1:
            return
        found = (res for suggestion in filter_suggestions(self.edits(word)) for res in handle_found(suggestion))
        for count, res in enumerate(found, start=1):
            yield res
            if count >= limit:
                return
'''))

t('root-heap', ('''        if len(root_scores) > MAX_ROOTS:
            heapq.heappushpop(root_scores, (score, word))
        else:
            heapq.heappush(root_scores, (score, word))
''', '''        scored = (score, word)
        keep = heapq.heappush if len(root_scores) <= MAX_ROOTS else heapq.heappushpop
        keep(root_scores, scored)
'''), file=NG)
t('length-filter', ('''        if abs(len(word.stem) - len(misspelling)) > 4:
            continue
        score''', '''        difference = len(misspelling) - len(word.stem)
        if not -4 <= difference <= 4:
            continue
        score'''), file=NG)
t('threshold-sum', ('''    thresh = 0.0
    for start_pos in range(1, 4):
        mangled = list(word)
        for pos in range(start_pos, len(word), 4):
            mangled[pos] = '*'
        mangled_word = ''.join(mangled)
        thresh += sm.ngram(len(word), word, mangled_word, any_mismatch=True)
    return thresh // 3 - 1
''', '''    def mangled(start):
        chars = list(word)
        for pos in range(start, len(word), 4):
            chars[pos] = '*'
        return ''.join(chars)

    thresh = 0.0
    for start in (1, 2, 3):
        thresh += sm.ngram(len(word), word, mangled(start), any_mismatch=True)
    return thresh // 3 - 1
'''), file=NG)
t('precise-terms', ('''    result = 2 * lcs - abs(len(word1) - len(word2))
    result += sm.leftcommonsubstring(word1, word2)
    if sm.commoncharacters(word1, word2.lower()):
        result += 1
    result += sm.ngram(4, word1, word2, any_mismatch=True)
''', '''    result = (
        2 * lcs
        - abs(len(word1) - len(word2))
        + sm.leftcommonsubstring(word1, word2)
        + sm.ngram(4, word1, word2, any_mismatch=True)
    )
    if sm.commoncharacters(word1, word2.lower()) > 0:
        result += 1
'''), file=NG)
t('forms-extend', ('''    for suf in suffixes:
        root = word.stem[0:-len(suf.strip)] if suf.strip else word.stem
        res.append(root + suf.add)
''', '''    def without_end(text, suffix):
        return text[:-len(suffix.strip)] if suffix.strip else text

    res.extend(without_end(word.stem, suf) + suf.add for suf in suffixes)
'''), file=NG)
t('forms-nested', ('''    cross = [
        (prefix, suffix)
        for prefix in prefixes
        for suffix in suffixes
        if suffix.crossproduct and prefix.crossproduct
    ]
''', '''    cross = []
    for prefix in prefixes:
        if prefix.crossproduct:
            cross.extend((prefix, suffix) for suffix in suffixes if suffix.crossproduct)
'''), file=NG)
t('filter-any-for', ('''        if not any(known_word in value for known_word in known):
            found += 1
            yield value
''', '''        if any(known_word in value for known_word in known):
            continue
        found += 1
        yield value
'''), file=NG)
t('guesses-map', ('''    guesses2 = sorted(guesses2, key=itemgetter(0), reverse=True)
    yield from filter_guesses(guesses2, known=known, onlymaxdiff=onlymaxdiff)
''', '''    guesses2.sort(key=itemgetter(0), reverse=True)
    for guess in filter_guesses(guesses2, known=known, onlymaxdiff=onlymaxdiff):
        yield guess
'''), file=NG)
t('phonet-lengths', ('''        if abs(len(word.stem) - len(misspelling)) > 3:
            continue
        nscore = ng.root_score(misspelling, word.stem)
''', '''        if len(word.stem) > len(misspelling) + 3 or len(word.stem) < len(misspelling) - 3:
            continue
        nscore = ng.root_score(misspelling, word.stem)
'''), file=PH)
t('metaphone-list', ('''    res = ''
''', '''    res = []
'''), ('''                res += rule.replacement
''', '''                res.append(rule.replacement)
'''), ('''    return res
''', '''    return ''.join(res)
'''), file=PH)

t('repl-template', ('''            suggestion = word[:match.start()] + pattern.replacement.replace('_', ' ') + word[match.end():]
            yield suggestion
            if ' ' in suggestion:
                yield suggestion.split(' ', 2)
''', '''            start, end = match.span()
            replacement = pattern.replacement.replace('_', ' ')
            suggestion = f'{word[:start]}{replacement}{word[end:]}'
            yield suggestion
            if ' ' in suggestion:
                yield suggestion.split(' ', maxsplit=2)
'''), file=P)
t('key-iter', ('''        pos = layout.find(c)
        while pos != -1:
''', '''        pos = -1
        while (pos := layout.find(c, pos + 1)) >= 0:
'''), ('''                yield before + layout[pos+1] + after
            pos = layout.find(c, pos+1)
''', '''                yield before + layout[pos+1] + after
'''), file=P)
t('long-swap-bounds', ('''    for first in range(len(word) - 2):
        for second in range(first + 2, min(first + MAX_CHAR_DISTANCE, len(word))):
''', '''    size = len(word)
    for first in range(size - 2):
        last = min(size, first + MAX_CHAR_DISTANCE)
        for second in range(first + 2, last):
'''), file=P)
t('move-back', ('''    for frompos in reversed(range(len(word))):
        for topos in reversed(range(max(0, frompos - MAX_CHAR_DISTANCE + 1), frompos - 1)):
''', '''    for frompos in range(len(word) - 1, -1, -1):
        for topos in range(frompos - 2, max(0, frompos - MAX_CHAR_DISTANCE + 1) - 1, -1):
'''), file=P)
t('extra-guard', ('''    if len(word) < 2:
        return
    for i in range(len(word)):
        yield word[:i] + word[i+1:]
''', '''    if len(word) > 1:
        for i, _ in enumerate(word):
            yield word[:i] + word[i+1:]
'''), file=P)

t('ngram-loop', ('''        ns = 0
        for pos in range(l1 - ngram_size + 1):
            if s1[pos:pos+ngram_size] in s2:
                ns += 1
            elif weighted:
                ns -= 1
                if pos == 0 or pos + ngram_size == l1:
                    ns -= 1
''', '''        ns = 0
        for pos in range(l1 - ngram_size + 1):
            end = pos + ngram_size
            if s1[pos:end] in s2:
                ns += 1
                continue
            if weighted:
                ns -= 2 if pos == 0 or end == l1 else 1
'''), file=SM)
t('common-count', ('''    return sum(c1 == c2 for c1, c2 in zip(s1, s2))
''', '''    return len([1 for c1, c2 in zip(s1, s2) if c1 == c2])
'''), file=SM)
t('ngram-penalty-helper', ('''    if longer_worse:
        penalty = (l2 - l1) - 2
    elif any_mismatch:
        penalty = abs(l2 - l1) - 2
    else:
        penalty = 0
    return nscore - penalty if penalty > 0 else nscore
''', '''    penalty = 0
    if longer_worse or any_mismatch:
        difference = l2 - l1
        if not longer_worse:
            difference = abs(difference)
        penalty = max(difference - 2, 0)
    return nscore - penalty
'''), file=SM)

t('casing-lower', ('''        if not word or word[0] == 'İ':
            return []
        return [word.lower().replace('i̇', 'i')]
''', '''        if word and not word.startswith('İ'):
            return [word.lower().replace('i̇', 'i')]
        return []
'''), file=CAP)
t('capitalize-generator', ('''        if len(word) == 1:
            return iter([self.upper(word[0])])
        else:
            return (self.upper(word[0]) + lower for lower in self.lower(word[1:]))
''', '''        first, rest = self.upper(word[0]), word[1:]
        if not rest:
            return iter([first])
        return (first + lower for lower in self.lower(rest))
'''), file=CAP)
t('guess-order', ('''        if word.islower():
            return Type.NO
        if word.isupper():
            return Type.ALL
        if word[:1].isupper():
            return Type.INIT if word[1:].islower() else Type.HUHINIT
        return Type.HUH
''', '''        if word.isupper():
            result = Type.ALL
        elif word.islower():
            result = Type.NO
        elif not word[:1].isupper():
            result = Type.HUH
        elif word[1:].islower():
            result = Type.INIT
        else:
            result = Type.HUHINIT
        return result
'''), file=CAP)
t('sharp-generator', ('''            pos = text.find('ss', start)
            if pos == -1:
                return []
            replaced = text[:pos] + 'ß' + text[pos+2:]
            return [replaced, *sharp_s_variants(replaced, pos+1), *sharp_s_variants(text, pos+2)]
''', '''            pos = text.find('ss', start)
            if pos < 0:
                return []
            before, after = text[:pos], text[pos+2:]
            replaced = before + 'ß' + after
            return [replaced] + sharp_s_variants(replaced, pos + 1) + sharp_s_variants(text, pos + 2)
'''), file=CAP)

t('flags-none', ('''        if string is None:
            return []
        if self.flag_synonyms and string.isdigit():
            return self.flag_synonyms[string]
        return self.split_flags(string)
''', '''        if string is None:
            return []
        is_alias = bool(self.flag_synonyms) and string.isdigit()
        return self.flag_synonyms[string] if is_alias else self.split_flags(string)
'''), file=RA)
t('directive-match', ('''    name, *arguments = re.split(r'\\s+', line)
    if not re.match(r'^[A-Z]+$', name):
        return None
    name = SYNONYMS.get(name, name)
    value = read_value(source, name, *arguments, context=context)
    if value is None:
        return None
    return (name, value)
''', '''    name, *arguments = re.split(r'\\s+', line)
    if re.match(r'^[A-Z]+$', name):
        if name in SYNONYMS:
            name = SYNONYMS[name]
        value = read_value(source, name, *arguments, context=context)
        if value is not None:
            return name, value
    return None
'''), file=RA)
t('read-array-loop', ('''        if count is None:
            count = int(value)
        return [
            re.split(r'\\s+', ln)[1:]
            for num, ln in itertools.islice(source, count)
        ]
''', '''        size = int(value) if count is None else count
        rows = []
        for _, text in itertools.islice(source, size):
            _, *fields = re.split(r'\\s+', text)
            rows.append(fields)
        return rows
'''), file=RA)
t('values-constants', ('''    if directive in ['SET', 'FLAG', 'KEY', 'TRY', 'WORDCHARS', 'LANG']:
        return value
''', '''    if directive in TEXT_DIRECTIVES:
        return value
'''), ('''@dataclass
class Context:
''', '''TEXT_DIRECTIVES = frozenset(['SET', 'FLAG', 'KEY', 'TRY', 'WORDCHARS', 'LANG'])


@dataclass
class Context:
'''), file=RA)
t('reset-io-skip', ('''        for _ in range(self.line_no):
            self.io.readline()
''', '''        skipped = 0
        while skipped < self.line_no:
            obj.readline()
            skipped += 1
'''), file=RF)
t('system-next', ('''        for folder in cls.PATHES:
            pathes = glob.glob(f'{folder}/{name}.aff')
            if pathes:
                return cls.from_files(pathes[0].replace('.aff', ''))
        raise''', '''        for folder in cls.PATHES:
            pathes = glob.glob(os.path.join(folder, name + '.aff'))
            if not pathes:
                continue
            path, *_ = pathes
            return cls.from_files(path.replace('.aff', ''))
        raise'''), file=D)
t('rep-escape', ('''        pattern = re.escape(self.pattern).replace('\\\\^', '^').replace('\\\\$', '$')
        self.regexp = re.compile(pattern)
''', '''        escaped = re.escape(self.pattern)
        for anchor in '^$':
            escaped = escaped.replace('\\\\' + anchor, anchor)
        self.regexp = re.compile(escaped)
'''), file=DA)
t('rule-parts', ('''        if '(' in self.text:
            self.flags = set(re.findall(r'\\((.+?)\\)', self.text))
            parts = [f"({re.escape(flag)}){times}" for flag, times in re.findall(r'\\(([^*?]+?)\\)([*?]?)', self.text)]
''', '''        if '(' in self.text:
            self.flags = {*re.findall(r'\\((.+?)\\)', self.text)}
            parts = []
            for flag, times in re.findall(r'\\(([^*?]+?)\\)([*?]?)', self.text):
                parts.append('(' + re.escape(flag) + ')' + times)
'''), file=DA)
t('pattern-init', ('''        if self.left_stem == '0':
            self.left_stem = ''
            self.left_no_affix = True
        else:
            self.left_no_affix = False
        if self.right_stem == '0':
            self.right_stem = ''
            self.right_no_affix = True
        else:
            self.right_no_affix = False
''', '''        self.left_no_affix = self.left_stem == '0'
        if self.left_no_affix:
            self.left_stem = ''
        self.right_no_affix = self.right_stem == '0'
        if self.right_no_affix:
            self.right_stem = ''
'''), file=DA)

"""Wrong edits that look like improvements, written from the statements of the properties (the third batch kept apart)"""
BUGS = []

L = 'algo/lookup.py'
S = 'algo/suggest.py'
P = 'algo/permutations.py'
CAP = 'algo/capitalization.py'
SM = 'algo/string_metrics.py'
NG = 'algo/ngram_suggest.py'
PH = 'algo/phonet_suggest.py'
TRIE = 'algo/trie.py'
DA = 'data/aff.py'
DD = 'data/dic.py'
RA = 'readers/aff.py'
RD = 'readers/dic.py'
RF = 'readers/file_reader.py'
D = 'dictionary.py'


def b(prop, name, *pairs, file=L):
    BUGS.append((prop, name, file, pairs))


# C01
b('C01', 'i-memo-lookup', ('''        self.aff = aff
        self.dic = dic
''', '''        self.aff = aff
        self.dic = dic
        self.seen = {}
'''), ('''        for parts in self.break_word(word):
            if all(is_correct(part) for part in parts if part):
                return True
        return False
''', '''        if word not in self.seen:
            self.seen[word] = any(all(is_correct(part) for part in parts if part) for parts in self.break_word(word))
        return self.seen[word]
'''))
b('C01', 'i-lower-setdefault', ('''            return self.lowercase_index.get(stem, [])
''', '''            return self.lowercase_index.setdefault(stem, [])
'''), file=DD)
b('C01', 'i-rep-sort', ('''    for pattern in reptable:
''', '''    reptable.sort(key=lambda p: -len(p.pattern))
    for pattern in reptable:
'''), file=P)
b('C01', 'i-required-append', ('''                for form2 in self.deprefix(stem,
                                           required_flags=[prefix.flag, *required_flags],
''', '''                required_flags.append(prefix.flag)
                for form2 in self.deprefix(stem,
                                           required_flags=required_flags,
'''))
b('C01', 'i-ngram-pop', ('''        score = root_score(misspelling, word.stem)
''', '''        score = root_score(misspelling, word.stem)
        word.data['score'] = score
'''), file=NG)
b('C01', 'i-captype-attr', ('''        captype, variants = self.aff.casing.corrections(word)
''', '''        captype, variants = self.aff.casing.corrections(word)
        self.captype = captype
'''), ('''                text = self.aff.casing.coerce(text, captype)
''', '''                text = self.aff.casing.coerce(text, self.captype)
'''), file=S)

# C02
b('C02', 'i-known-sorted', ('''        if not any(known_word in value for known_word in known):
''', '''        if not next((k in value for k in known if k), False):
'''), file=NG)
b('C02', 'i-flags-order', ('''        for flag in word.flags
        for suffix in all_suffixes.get(flag, [])
''', '''        for flag in list(word.flags)[:16]
        for suffix in all_suffixes.get(flag, [])
'''), file=NG)
b('C02', 'i-heap-id', ('''            heapq.heappush(root_scores, (score, word))
''', '''            heapq.heappush(root_scores, (score, id(word), word))
'''), ('''            heapq.heappushpop(root_scores, (score, word))
''', '''            heapq.heappushpop(root_scores, (score, id(word), word))
'''), ('''    for (_, root) in roots:
''', '''    for (_, _, root) in roots:
'''), file=NG)
b('C02', 'i-set-variants', ('''            result = [word, *self.lowerfirst(word), *self.lower(word), *self.capitalize(word)]
''', '''            result = [*{word, *self.lowerfirst(word), *self.lower(word), *self.capitalize(word)}]
'''), file=CAP)

# C03
b('C03', 'i-metaphone-span', ('''                pos += max(match.span()[1] - match.span()[0], 1)
''', '''                pos = max(match.end(), pos)
'''), file=PH)
b('C03', 'i-break-start', ('''                for breaking in self.break_word(rest, depth=depth+1):
''', '''                for breaking in self.break_word(rest or text, depth=depth):
'''))
b('C03', 'i-map-zero', ('''                        for variant in mapchars_internal(replaced, pos + len(other)):
''', '''                        for variant in mapchars_internal(replaced, pos):
'''), file=P)
b('C03', 'i-readline', ('''            ln = self.io.readline()

''', '''            if ln.strip():
                ln = self.io.readline()

'''), file=RF)
b('C03', 'i-dash-self', ('''                    for sug in self(chunk):
''', '''                    for sug in self(chunk or word):
'''), file=S)

# C04
b('C09', 'i-boundary', ('''            if aff.CHECKCOMPOUNDDUP:
                if left == right and idx == len(compound.parts) - 2:
''', '''            if aff.CHECKCOMPOUNDDUP:
                if left == right and (idx == len(compound.parts) - 2 or compound.parts[idx + 2].text != right):
'''))
b('C04', 'i-space-next', ('''                    if (pos + 1 < len(text) and pos < len(word) and
                            text[pos + 1] != word[pos] and text[pos + 1].upper() == word[pos]):
''', '''                    if pos < len(word) and \\
                       text[pos + 1] != word[pos] and text[pos + 1].upper() == word[pos]:
'''), file=S)
b('C04', 'i-homonyms-sub', ('''        return self.index.get(stem, [])
''', '''        return self.index[stem] if stem in self.index or stem.lower() in self.lowercase_index else []
'''), ('''        self.index = defaultdict(list)
''', '''        self.index = {}
'''), ('''        self.index[word.stem].append(word)
''', '''        self.index.setdefault(word.stem, []).append(word)
'''), file=DD)
b('C01', 'i-phone-rules', ('''        for rule in table.rules.get(word[pos], []):
''', '''        for rule in table.rules[word[pos]] if word[pos].isalpha() else []:
'''), ('''    pos = 0
    word = word.upper()
''', '''    pos = 0
    word = word.upper().strip()
'''), file=PH)
b('C04', 'i-chunks', ('''            for idx, chunk in enumerate(chunks):
                if not is_good_suggestion(chunk):
''', '''            for idx, chunk in enumerate(chunks):
                if chunks[idx + 1] and not is_good_suggestion(chunk):
'''), file=S)
b('C04', 'i-lcs-rows', ('''    c = [[0 for j in range(n+1)] for i in range(m+1)]
''', '''    c = [[0 for j in range(m+1)] for i in range(n+1)]
'''), file=SM)

# C05
b('C05', 'i-has-flag-first', ('''            return all(flag in homonym.flags for homonym in homonyms)
        return any(flag in homonym.flags for homonym in homonyms)
''', '''            return all(flag in homonym.flags for homonym in homonyms)
        return flag in homonyms[0].flags
'''), ('''        if not homonyms:
            return False
''', '''        if not homonyms:
            return False
'''), file=DD)
b('C05', 'i-forbidden-compound-only', ('''                    (compoundpos or form.has_affixes()) and
''', '''                    form.has_affixes() and
'''))
b('C05', 'i-with-forbidden-pass', ('''            if not with_forbidden and self.aff.FORBIDDENWORD and self.aff.FORBIDDENWORD in form.in_dictionary.flags:
                return False
''', '''            if not with_forbidden and self.aff.FORBIDDENWORD and form.is_base() and \\
               self.aff.FORBIDDENWORD in form.in_dictionary.flags:
                return False
'''))
b('C05', 'i-captype-no', ('''        if self.aff.FORBIDDENWORD and any(self.aff.FORBIDDENWORD in candidate.flags()
                                          for candidate in
                                          self.affix_forms(word, captype=captype, with_forbidden=True)):
            return
''', '''        if self.aff.FORBIDDENWORD and self.dic.has_flag(word, self.aff.FORBIDDENWORD):
            return
'''))

# C06
b('C06', 'i-desuffix-nested', ('''            if not nested:
                for form2 in self.desuffix(stem,
''', '''            if not nested and suffix.flags:
                for form2 in self.desuffix(stem,
'''), ('''                                           required_flags=[suffix.flag, *required_flags],
''', '''                                           required_flags=[suffix.flag],
'''))
b('C06', 'i-cond-none', ('''            if not suffix.cond_regexp.search(stem):
                continue
''', '''            if suffix.strip and not suffix.cond_regexp.search(stem):
                continue
'''))
b('C06', 'i-flags-both', ('''        if form.suffix and form.suffix.flag not in all_flags:
            return False
''', '''        if form.suffix and not form.prefix and form.suffix.flag not in all_flags:
            return False
'''))
b('C06', 'i-deprefix-cross', ('''                if suffix_allowed and form.prefix and form.prefix.crossproduct:
''', '''                if suffix_allowed and form.prefix and not form.prefix2 and form.prefix.crossproduct:
'''))
b('C06', 'i-suffix-once', ('''        self.replace_regexp = re.compile(re.escape(self.add) + '$')
''', '''        self.replace_regexp = re.compile(re.escape(self.add))
'''), file=DA)
b('C06', 'i-cond-anchor', ('''        self.cond_regexp = re.compile('^' + self.condition.replace('-', '\\\\-'))
''', '''        self.cond_regexp = re.compile(self.condition.replace('-', '\\\\-'))
'''), file=DA)

# C07
b('C07', 'i-circumfix-skip', ('''            if bool(prefix_has) != bool(suffix_has):
                return False
''', '''            if form.prefix and form.suffix and bool(prefix_has) != bool(suffix_has):
                return False
'''))
b('C07', 'i-needaffix-all', ('''            if form.has_affixes() and all(aff.NEEDAFFIX in a.flags for a in form.all_affixes()):
                return False
''', '''            if form.suffix and not form.prefix and aff.NEEDAFFIX in form.suffix.flags:
                return False
'''))
b('C07', 'i-only-compound-affix', ('''            return aff.ONLYINCOMPOUND not in all_flags
''', '''            return aff.ONLYINCOMPOUND not in (all_flags if form.suffix else root_flags)
'''))
b('C07', 'i-keepcase-sharps', ('''            if not (aff.CHECKSHARPS and 'ß' in form.in_dictionary.stem):
                return False
''', '''            if not (aff.CHECKSHARPS or 'ß' in form.in_dictionary.stem):
                return False
'''))
b('C07', 'i-keepcase-init', ('''        if captype != form.in_dictionary.captype and aff.KEEPCASE in root_flags:
''', '''        if captype == CapType.ALL and captype != form.in_dictionary.captype and aff.KEEPCASE in root_flags:
'''))

# C08
b('C08', 'i-min-two', ('''        for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
            beg = word_rest[0:pos]
            rest = word_rest[pos:]
''', '''        for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
            beg, rest = word_rest[:pos], word_rest[pos:]
            if len(rest) < aff.COMPOUNDMIN * (1 if depth else 2) and len(beg) < aff.COMPOUNDMIN * 2:
                continue
'''))
b('C08', 'i-end-permit', ('''                                         compoundpos=CompoundPos.END,
                                         prefix_flags=permitflags,
''', '''                                         compoundpos=CompoundPos.END,
                                         prefix_flags=permitflags,
                                         suffix_flags=permitflags,
'''))
b('C08', 'i-middle-or-begin', ('''        if compoundpos == CompoundPos.MIDDLE:
            return aff.COMPOUNDMIDDLE in all_flags
''', '''        if compoundpos == CompoundPos.MIDDLE:
            return aff.COMPOUNDMIDDLE in all_flags or aff.COMPOUNDBEGIN in all_flags
'''))
b('C08', 'i-rule-first', ('''                if any(r.fullmatch(flag_sets) for r in rules):
''', '''                if rules[0].fullmatch(flag_sets):
'''))
b('C08', 'i-permit-none', ('''        permitflags = [aff.COMPOUNDPERMITFLAG] if aff.COMPOUNDPERMITFLAG else []
''', '''        permitflags = [aff.COMPOUNDPERMITFLAG] if aff.COMPOUNDPERMITFLAG and depth else []
'''))
b('C08', 'i-first-form', ('''                for partial in self.compounds_by_flags(rest, captype=captype, depth=depth+1,
                                                       allow_nosuggest=allow_nosuggest):
                    yield CompoundForm([form, *partial.parts])
''', '''                for partial in self.compounds_by_flags(rest, captype=captype, depth=depth+1,
                                                       allow_nosuggest=allow_nosuggest):
                    yield CompoundForm([form, *partial.parts])
                break
'''))

# C09
b('C09', 'i-phrase-affix', ('''            if any(self.affix_forms(left + ' ' + right, captype=captype)):
                return True
''', '''            if self.dic.homonyms(left + ' ' + right):
                return True
'''))
b('C09', 'i-rep-left', ('''                for candidate in pmt.replchars(left + right, aff.REP):
''', '''                for candidate in pmt.replchars(left, aff.REP):
'''))
b('C09', 'i-pattern-first', ('''                if any(pattern.match(left_paradigm, right_paradigm) for pattern in aff.CHECKCOMPOUNDPATTERN):
                    return True
''', '''                return any(pattern.match(left_paradigm, right_paradigm) for pattern in aff.CHECKCOMPOUNDPATTERN)
'''))
b('C09', 'i-triple-elif', ('''                if len(set(left[-2:] + right[:1])) == 1 or len(set(left[-1:] + right[:2])) == 1:
                    return True
''', '''                if len(set(left[-2:] + right[:1])) == 1 or len(set(left[-1:] + right[1:3])) == 1:
                    return True
'''))
b('C09', 'i-forceucase-only', ('''            if self.dic.has_flag(compound.parts[-1].text, aff.FORCEUCASE):
                return True
''', '''            return self.dic.has_flag(compound.parts[-1].text, aff.FORCEUCASE)
'''))
b('C09', 'i-dup-idx', ('''                if left == right and idx == len(compound.parts) - 2:
''', '''                if left == right and idx == len(compound.parts) - 1:
'''))

# C10
b('C10', 'i-guess-digit', ('''        if word.isupper():
            return Type.ALL
''', '''        if word.isupper() and word.isalpha():
            return Type.ALL
'''), file=CAP)
b('C10', 'i-lower-first-variant', ('''            result = [word, *self.lower(word), *self.capitalize(word)]

        return (captype, result)

    def corrections''', '''            result = [word, *self.lower(word)[:1], *self.capitalize(word)]

        return (captype, result)

    def corrections'''), file=CAP)
b('C10', 'i-all-no-plain', ('''            result = [word, *self.lowerfirst(word)]
''', '''            result = [word, *self.lower(word)]
'''), file=CAP)
b('C10', 'i-forms-stop', ('''            if compound_forms:
                yield from self.compound_forms(variant, captype=captype, allow_nosuggest=allow_nosuggest)
''', '''            if compound_forms and variant == word:
                yield from self.compound_forms(variant, captype=captype, allow_nosuggest=allow_nosuggest)
'''))

# C11
b('C11', 'i-number-sign', ('''        if NUMBER_REGEXP.fullmatch(word):
            return True
''', '''        if NUMBER_REGEXP.search(word.strip('-')):
            return True
'''))
b('C11', 'i-iconv-twice', ('''        if self.aff.IGNORE:
            word = word.translate(self.aff.IGNORE.tr)
''', '''        if self.aff.IGNORE:
            word = word.translate(self.aff.IGNORE.tr)
            if self.aff.ICONV:
                word = self.aff.ICONV(word)
'''))
b('C11', 'i-parts-strip', ('''            if all(is_correct(part) for part in parts if part):
''', '''            if all(is_correct(part) for part in parts if part and not part.isdigit()):
'''))
b('C11', 'i-one-part', ('''            if all(is_correct(part) for part in parts if part):
                return True
''', '''            if len(parts) > 1 and not parts[-1]:
                continue
            if all(is_correct(part) for part in parts if part):
                return True
'''))

# C12
b('C12', 'i-regexp-plus', ('''            self.regexp = re.compile(f".({pattern}).")
''', '''            self.regexp = re.compile(f".({pattern})+.")
'''), file=DA)
b('C12', 'i-search-rest', ('''            for m in pat.regexp.finditer(text):
''', '''            for m in pat.regexp.finditer(text.lower()):
'''))
b('C12', 'i-empty-start', ('''                start = text[:m.start(1)]
''', '''                start = text[:m.start(1)].strip()
'''))
b('C12', 'i-start-skip', ('''        yield [text]
        for pat''', '''        if text:
            yield [text]
        for pat'''))

# C13
b('C13', 'i-search', ('''                 if search and pattern.match(word, pos)],
''', '''                 if search and pattern.match(word[pos:])],
'''), file=DA)
b('C13', 'i-key-pattern', ('''                key=lambda r: len(r[0]),
                reverse=True
''', '''                key=lambda r: (len(r[2]), len(r[0])),
                reverse=True
'''), file=DA)
b('C13', 'i-clean-strip', ('''            pat1clean = pat1.replace('_', '')
            pat1re = re.escape(pat1clean)
''', '''            pat1clean = pat1.strip('_')
            pat1re = re.escape(pat1.replace('_', ''))
'''), file=DA)

# C14
b('C14', 'i-forbidden-kind', ('''            if is_forbidden(text):
                return

            text = self.aff.OCONV''', '''            if suggestion.kind in ['ngram', 'phonet'] and is_forbidden(text):
                return

            text = self.aff.OCONV'''), file=S)
b('C14', 'i-forbidden-text', ('''            if is_forbidden(text):
                return

            text = self.aff.OCONV''', '''            if is_forbidden(suggestion.text) and text == suggestion.text.upper():
                return

            text = self.aff.OCONV'''), file=S)

# C15
b('C15', 'i-handled-limit', ('''            if text in handled:
                return
''', '''            if text in handled and len(handled) > 1:
                return
'''), file=S)
b('C15', 'i-handled-kind', ('''            handled.add(text)
''', '''            if suggestion.kind != 'dashes':
                handled.add(text)
'''), file=S)
b('C15', 'i-strip', ('''            handled.add(text)

            yield suggestion.replace(text=text)
''', '''            handled.add(text)

            yield suggestion.replace(text=text.strip())
'''), file=S)

# C16
b('C16', 'i-root-or-all', ('''        if not allow_nosuggest and aff.NOSUGGEST in root_flags:
            return False
''', '''        if not allow_nosuggest and form.is_base() and aff.NOSUGGEST in root_flags:
            return False
'''))
b('C16', 'i-force', ('''                if is_good_suggestion(capitalized):
''', '''                if self.lookup(capitalized, capitalization=False):
'''), file=S)
b('C16', 'i-bad-flags', ('''        bad_flags = {*filter(None, [self.aff.FORBIDDENWORD, self.aff.NOSUGGEST, self.aff.ONLYINCOMPOUND])}
''', '''        bad_flags = {*filter(None, [self.aff.FORBIDDENWORD, self.aff.NOSUGGEST or self.aff.ONLYINCOMPOUND])}
'''), file=S)

# C17
b('C17', 'i-lookup-call', ('''            return any(self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False))

        def is_forbidden''', '''            return self.lookup(word, capitalization=False, allow_nosuggest=False)

        def is_forbidden'''), file=S)
b('C17', 'i-words-len', ('''                    if all(is_good_suggestion(word) for word in suggestion.words):
''', '''                    if all(is_good_suggestion(word) for word in suggestion.words if len(word) > 1):
'''), file=S)
b('C17', 'i-strip', ('''                    if is_good_suggestion(suggestion.text):
                        yield suggestion
''', '''                    if is_good_suggestion(suggestion.text.strip('.')):
                        yield suggestion
'''), file=S)
b('C17', 'i-dash-chunk', ('''                        if self.lookup(candidate, allow_nosuggest=False):
''', '''                        if all(self.lookup(c, allow_nosuggest=False) for c in chunks[idx+1:]):
'''), file=S)

# C18
b('C18', 'i-limit-both', ('''limit=self.aff.MAXCPDSUGS, compounds=True)''', '''limit=max(self.aff.MAXCPDSUGS, 1), compounds=True)'''), file=S)
b('C18', 'i-ngram-reset', ('''            for res in handle_found(Suggestion(sug, 'ngram'), check_inclusion=True):
                ngrams_seen += 1
                yield res
''', '''            for res in handle_found(Suggestion(sug, 'ngram'), check_inclusion=True):
                ngrams_seen += len(res.text) > 1
                yield res
'''), file=S)
b('C18', 'i-count-kind', ('''                yield res
                count += 1
''', '''                yield res
                if res.kind != 'twowords':
                    count += 1
'''), file=S)
b('C18', 'i-phon-else', ('''            if phonet_seen >= MAXPHONSUGS:
''', '''            if phonet_seen >= max(MAXPHONSUGS, self.aff.MAXNGRAMSUGS):
'''), file=S)

# C19
b('C19', 'i-title', ('''            return self.upper(word[:1]) + word[1:]
''', '''            return self.upper(word[:1]) + word[1:] if word[1:].islower() else word
'''), file=CAP)
b('C19', 'i-keepcase-any', ('''            if (self.aff.KEEPCASE and self.dic.has_flag(text, self.aff.KEEPCASE) and not
''', '''            if (self.aff.KEEPCASE and self.dic.has_flag(text.lower(), self.aff.KEEPCASE) and not
'''), file=S)
b('C19', 'i-oconv-late', ('''            text = self.aff.OCONV(text) if self.aff.OCONV else text

            if text in handled:
                return
''', '''            if text in handled:
                return

            text = self.aff.OCONV(text) if self.aff.OCONV else text
'''), file=S)

# C20
b('C20', 'i-rep-underscore', ('''pattern.replacement.replace('_', ' ') + word[match.end():]''', '''pattern.replacement.replace('_', ' ', 1) + word[match.end():]'''), file=P)
b('C20', 'i-forgot-same', ('''        for i in range(len(word) + 1):
            yield word[:i] + c + word[i:]
''', '''        for i in range(len(word) + 1):
            if word[i:i+1].isupper():
                c = c.upper()
            yield word[:i] + c + word[i:]
'''), file=P)
b('C20', 'i-two-min', ('''    for i in range(1, len(word)):
        yield [word[:i], word[i:]]
''', '''    for i in range(1, len(word) - 1):
        yield [word[:i], word[i:]]
'''), file=P)
b('C20', 'i-key-case', ('''        pos = layout.find(c)
''', '''        pos = layout.find(c.lower())
'''), file=P)

# C21
b('C21', 'i-nocompound-break', ('''                if suggestion.kind in ['uppercase', 'replchars', 'mapchars']:
                    nocompound = True
''', '''                if suggestion.kind in ['uppercase', 'replchars', 'mapchars', 'swapchar']:
                    nocompound = True
'''), file=S)
b('C21', 'i-good-first', ('''        good_edits_found = False

        for idx, variant in enumerate(variants):
''', '''        for idx, variant in enumerate(variants):
            good_edits_found = False
'''), file=S)
b('C21', 'i-spaceword-stop', ('''                if suggestion.kind == 'spaceword':
                    return
''', '''                if suggestion.kind == 'spaceword':
                    break
'''), file=S)
b('C21', 'i-dash-handled', ('''        if '-' in word and not any('-' in sug for sug in handled):
''', '''        if '-' in word and not handled:
'''), file=S)
b('C21', 'i-two-dash', ('''                yield MultiWordSuggestion(suggestion_pair, 'twowords', allow_dash=self.use_dash())
''', '''                yield MultiWordSuggestion(suggestion_pair, 'twowords')
'''), file=S)

# C23
b('C23', 'i-utf-long', ('''        if self.flag_format == 'UTF-8':
''', '''        if self.flag_format.startswith('UTF'):
'''), file=RA)
b('C23', 'i-dic-aff', ('''encoding=context.encoding), aff=aff, context=context)
        return cls(aff, dic)

    @classmethod
    def from_zip''', '''encoding=aff.SET), aff=aff, context=context)
        return cls(aff, dic)

    @classmethod
    def from_zip'''), file=D)

# C24
b('C24', 'i-count-first', ('''        if num == 1 and COUNT_REGEXP.match(line):
            continue
''', '''        if not result.words and COUNT_REGEXP.match(line):
            continue
'''), file=RD)
b('C24', 'i-lower-huh', ('''        lower = aff.casing.lower(word) if captype != CapType.NO else [word]
''', '''        lower = aff.casing.lower(word) if captype in (CapType.INIT, CapType.ALL) else [word]
'''), file=RD)
b('C24', 'i-dup-words', ('''        self.words.append(word)
        self.index[word.stem].append(word)
''', '''        if word in self.index[word.stem]:
            return
        self.words.append(word)
        self.index[word.stem].append(word)
'''), file=DD)
b('C24', 'i-ph-lower', ('''                    alt_spellings.append(pattern)
''', '''                    alt_spellings.append(pattern.lower())
'''), file=RD)
b('C24', 'i-flags-split', ('''            word_with_flags = SLASH_REGEXP.split(word, 1)
''', '''            word_with_flags = [part.strip() for part in SLASH_REGEXP.split(word, 1)]
'''), file=RD)

# C25
b('C25', 'i-break-caret', ('''        pattern = re.escape(self.pattern).replace('\\\\^', '^').replace('\\\\$', '$')

        if pattern.startswith''', '''        pattern = self.pattern.replace('.', '\\\\.').replace('(', '\\\\(').replace(')', '\\\\)')

        if pattern.startswith'''), file=DA)
b('C25', 'i-rule-flag', ('''parts = [f"({re.escape(flag)}){times}"''', '''parts = [f"({flag}){times}"'''), file=DA)

# C26
b('C26', 'i-traverse-iter', ('''        yield (traversed, cur)
        if not path or path[0] not in cur.children:
            return
''', '''        yield (traversed, cur)
        if len(path) < 2 or path[0] not in cur.children:
            return
'''), file=TRIE)
b('C26', 'i-index-lower', ('''            suffixes[suf.add[::-1]].append(suf)
''', '''            suffixes[suf.add.lower()[::-1]].append(suf)
'''), file=DA)
b('C26', 'i-prefix-values', ('''itertools.chain.from_iterable(self.PFX.values())''', '''(prefs[0] for prefs in self.PFX.values())'''), file=DA)
b('C26', 'i-first-payload', ('''            yield from leaf.payloads
''', '''            yield from sorted(leaf.payloads, key=lambda a: a.flag)[:1] if not _ else leaf.payloads
'''), file=TRIE)

# C27
b('C27', 'i-from-cwd', ('''        if path in cls.DISTRIBUTED and not os.path.exists(path + '.aff'):
''', '''        path = os.path.expanduser(path)
        if os.path.exists(path + '.user.dic'):
            open(path + '.user.dic', 'a').close()
        if path in cls.DISTRIBUTED and not os.path.exists(path + '.aff'):
'''), file=D)
b('C27', 'i-literal', ('''            la = len(m.group('lookahead'))
''', '''            la = eval(str(len(m.group('lookahead'))))
'''), file=DA)

# C28
b('C28', 'i-strip-chars', ('''            yield (self.line_no, ln.strip())
''', '''            yield (self.line_no, ln.strip(' \\t\\n'))
'''), file=RF)
b('C28', 'i-bom-replace', ('''            if self.line_no == 1 and ln.startswith("\\ufeff"):
''', '''            elif self.line_no <= 2 and ln.startswith("\\ufeff"):
'''), file=RF)
b('C28', 'i-skip-minus', ('''        for _ in range(self.line_no):
            self.io.readline()
''', '''        for _ in range(self.line_no - 1):
            self.io.readline()
'''), file=RF)
b('C28', 'i-errors-ignore', ('''        return open(path, 'r', encoding=encoding, errors='surrogateescape')
''', '''        return open(path, 'r', encoding=encoding, errors='ignore')
'''), file=RF)

# C29
b('C29', 'i-cross-one', ('''        if suffix.crossproduct and prefix.crossproduct
''', '''        if suffix.crossproduct
'''), file=NG)
b('C29', 'i-root-suffix-strip', ('''        root = word.stem[0:-len(suf.strip)] if suf.strip else word.stem
''', '''        root = word.stem[0:len(word.stem)-len(suf.add)] if suf.strip else word.stem
'''), file=NG)
b('C29', 'i-similar-in', ('''        if suffix.cond_regexp.search(word.stem) and similar_to.endswith(suffix.add)
''', '''        if suffix.cond_regexp.search(word.stem) and suffix.add in similar_to
'''), file=NG)
b('C29', 'i-pair', ('''                    heapq.heappush(guess_scores, (score, variant, root.stem))
''', '''                    heapq.heappush(guess_scores, (score, root.stem, variant))
'''), file=NG)

# C30
b('C30', 'i-seen-known', ('''        if score > 1000:
            seen = True
        elif''', '''        if score > 1000 and value not in known:
            seen = True
        elif'''), file=NG)
b('C30', 'i-found-or', ('''            if found > 0 or onlymaxdiff:
                return
''', '''            if found > 1 or onlymaxdiff:
                return
'''), file=NG)
b('C31', 'i-heap-len', ('''        if len(root_scores) > MAX_ROOTS:
            heapq.heappushpop(root_scores, (score, word))
''', '''        if len(root_scores) > MAX_ROOTS:
            heapq.heapreplace(root_scores, (score, word))
'''), file=NG)
b('C31', 'i-ph-score', ('''        score = 2 * sm.ngram(3, misspelling_ph, metaphone(table, word.stem), longer_worse=True)
''', '''        score = 2 * sm.ngram(3, metaphone(table, word.stem), misspelling_ph, longer_worse=True)
'''), file=PH)
b('C31', 'i-rough-lower', ('''            score = rough_affix_score(misspelling, form.lower())
''', '''            score = rough_affix_score(misspelling, form)
'''), file=NG)
b('C31', 'i-precise-base', ('''        (precise_affix_score(misspelling, compared.lower(), fact, base=score, has_phonetic=has_phonetic), real)
''', '''        (precise_affix_score(misspelling, real.lower(), fact, base=score, has_phonetic=has_phonetic), real)
'''), file=NG)
b('C31', 'i-sort-ph', ('''    guesses2 = sorted(guesses2, key=itemgetter(0), reverse=True)
''', '''    guesses2 = sorted(guesses2[:MAX_ROOTS // 2], key=itemgetter(0), reverse=True)
'''), file=PH)
b('C31', 'i-common', ('''    if sm.commoncharacters(word1, word2.lower()):
        result += 1
''', '''    result += sm.commoncharacters(word1, word2.lower())
'''), file=NG)

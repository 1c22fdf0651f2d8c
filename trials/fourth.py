"""Behaviour-preserving edits: larger rewrites of whole functions (the fourth batch)"""
TRIALS = []

L = 'algo/lookup.py'
S = 'algo/suggest.py'
P = 'algo/permutations.py'
CAP = 'algo/capitalization.py'
SM = 'algo/string_metrics.py'
NG = 'algo/ngram_suggest.py'
PH = 'algo/phonet_suggest.py'
TRIE = 'algo/trie.py'
DA = 'data/aff.py'
DD = 'data/dic.py'
RA = 'readers/aff.py'
RD = 'readers/dic.py'
RF = 'readers/file_reader.py'
D = 'dictionary.py'


def t(name, *pairs, file=L):
    TRIALS.append((name, file, pairs))


t('homonyms-matching', ('''            for homonym in homonyms:
                candidate = form.replace(in_dictionary=homonym)
                if is_good_form(candidate):
                    found = True
                    yield candidate
            if compoundpos == CompoundPos.BEGIN and self.aff.FORCEUCASE and captype == CapType.INIT:
                for homonym in self.dic.homonyms(form.stem.lower()):
                    candidate = form.replace(in_dictionary=homonym)
                    if is_good_form(candidate):
                        found = True
                        yield candidate
''', '''            for candidate in good_candidates(form, homonyms):
                found = True
                yield candidate
            if compoundpos == CompoundPos.BEGIN and self.aff.FORCEUCASE and captype == CapType.INIT:
                for candidate in good_candidates(form, self.dic.homonyms(form.stem.lower())):
                    found = True
                    yield candidate
'''), ('''                for homonym in self.dic.homonyms(form.stem, ignorecase=True):
                    candidate = form.replace(in_dictionary=homonym)
                    if is_good_form(candidate):
                        yield candidate
''', '''                yield from good_candidates(form, self.dic.homonyms(form.stem, ignorecase=True))
'''), ('''        for form in self.produce_affix_forms(word, compoundpos=compoundpos,
''', '''        def good_candidates(form, entries):
            for entry in entries:
                candidate = form.replace(in_dictionary=entry)
                if is_good_form(candidate):
                    yield candidate
        for form in self.produce_affix_forms(word, compoundpos=compoundpos,
'''))
t('homonyms-lists', ('''            found = False
            homonyms = self.dic.homonyms(form.stem)
''', '''            homonyms = self.dic.homonyms(form.stem)
'''), ('''            for homonym in homonyms:
                candidate = form.replace(in_dictionary=homonym)
                if is_good_form(candidate):
                    found = True
                    yield candidate
            if compoundpos == CompoundPos.BEGIN and self.aff.FORCEUCASE and captype == CapType.INIT:
                for homonym in self.dic.homonyms(form.stem.lower()):
                    candidate = form.replace(in_dictionary=homonym)
                    if is_good_form(candidate):
                        found = True
                        yield candidate
            if found or compoundpos or captype != CapType.ALL:
                continue
''', '''            candidates = [form.replace(in_dictionary=homonym) for homonym in homonyms]
            good = [candidate for candidate in candidates if is_good_form(candidate)]
            if compoundpos == CompoundPos.BEGIN and self.aff.FORCEUCASE and captype == CapType.INIT:
                candidates = [form.replace(in_dictionary=homonym) for homonym in self.dic.homonyms(form.stem.lower())]
                good += [candidate for candidate in candidates if is_good_form(candidate)]
            yield from good
            if good or compoundpos or captype != CapType.ALL:
                continue
'''))
t('compound-sources', ('''        if self.aff.COMPOUNDBEGIN or self.aff.COMPOUNDFLAG:
            for compound in self.compounds_by_flags(word, captype=captype, allow_nosuggest=allow_nosuggest):
                if not self.is_bad_compound(compound, captype):
                    yield compound
        if self.aff.COMPOUNDRULE:
            for compound in self.compounds_by_rules(word, allow_nosuggest=allow_nosuggest):
                if not self.is_bad_compound(compound, captype):
                    yield compound
''', '''        sources = []
        if self.aff.COMPOUNDBEGIN or self.aff.COMPOUNDFLAG:
            sources.append(self.compounds_by_flags(word, captype=captype, allow_nosuggest=allow_nosuggest))
        if self.aff.COMPOUNDRULE:
            sources.append(self.compounds_by_rules(word, allow_nosuggest=allow_nosuggest))
        for source in sources:
            for compound in source:
                if self.is_bad_compound(compound, captype):
                    continue
                yield compound
'''))
t('compound-generator', ('''        if self.aff.COMPOUNDBEGIN or self.aff.COMPOUNDFLAG:
            for compound in self.compounds_by_flags(word, captype=captype, allow_nosuggest=allow_nosuggest):
                if not self.is_bad_compound(compound, captype):
                    yield compound
        if self.aff.COMPOUNDRULE:
            for compound in self.compounds_by_rules(word, allow_nosuggest=allow_nosuggest):
                if not self.is_bad_compound(compound, captype):
                    yield compound
''', '''        for compound in self._all_compounds(word, captype, allow_nosuggest):
            if not self.is_bad_compound(compound, captype):
                yield compound
    def _all_compounds(self, word, captype, allow_nosuggest):
        if self.aff.COMPOUNDBEGIN or self.aff.COMPOUNDFLAG:
            yield from self.compounds_by_flags(word, captype=captype, allow_nosuggest=allow_nosuggest)
        if self.aff.COMPOUNDRULE:
            yield from self.compounds_by_rules(word, allow_nosuggest=allow_nosuggest)
'''))
t('produce-early', ('''        suffix_allowed = compoundpos in [None, CompoundPos.END] or suffix_flags
        prefix_allowed = compoundpos in [None, CompoundPos.BEGIN] or prefix_flags
        if suffix_allowed:
            yield from self.desuffix(word, required_flags=suffix_flags, forbidden_flags=forbidden_flags)
        if prefix_allowed:
            for form in self.deprefix(word, required_flags=prefix_flags, forbidden_flags=forbidden_flags):
                yield form
                if suffix_allowed and form.prefix and form.prefix.crossproduct:
                    yield from (
                        form2.replace(text=form.text, prefix=form.prefix)
                        for form2 in self.desuffix(form.stem,
                                                   required_flags=suffix_flags,
                                                   forbidden_flags=forbidden_flags,
                                                   crossproduct=True)
                    )
''', '''        suffix_allowed = compoundpos is None or compoundpos == CompoundPos.END or bool(suffix_flags)
        prefix_allowed = compoundpos is None or compoundpos == CompoundPos.BEGIN or bool(prefix_flags)
        if suffix_allowed:
            for form in self.desuffix(word, suffix_flags, forbidden_flags):
                yield form
        if not prefix_allowed:
            return
        for form in self.deprefix(word, prefix_flags, forbidden_flags):
            yield form
            if not suffix_allowed:
                continue
            if not form.prefix or not form.prefix.crossproduct:
                continue
            for inner in self.desuffix(form.stem, suffix_flags, forbidden_flags, crossproduct=True):
                yield inner.replace(text=form.text, prefix=form.prefix)
'''))
t('desuffix-filter', ('''        def good_suffix(suffix):
            return (
                (not crossproduct or suffix.crossproduct) and
                all(f in suffix.flags for f in required_flags) and
                all(f not in suffix.flags for f in forbidden_flags)
            )
        possible_suffixes = (
            suffix
            for suffix in self.aff.suffixes_index.lookup(word[::-1])
            if good_suffix(suffix)
        )
        for suffix in possible_suffixes:
            stem =''', '''        def is_suitable(suffix):
            if crossproduct and not suffix.crossproduct:
                return False
            for flag in required_flags:
                if flag not in suffix.flags:
                    return False
            for flag in forbidden_flags:
                if flag in suffix.flags:
                    return False
            return True
        for suffix in filter(is_suitable, self.aff.suffixes_index.lookup(word[::-1])):
            stem ='''))
t('affix-suitable', ('''        def good_suffix(suffix):
            return (
                (not crossproduct or suffix.crossproduct) and
                all(f in suffix.flags for f in required_flags) and
                all(f not in suffix.flags for f in forbidden_flags)
            )
''', '''        def good_suffix(suffix):
            return (not crossproduct or suffix.crossproduct) and \\
                has_right_flags(suffix, required_flags, forbidden_flags)
'''), ('''        def good_prefix(prefix):
            return all(f in prefix.flags for f in required_flags) and \\
                   all(f not in prefix.flags for f in forbidden_flags)
''', '''        def good_prefix(prefix):
            return has_right_flags(prefix, required_flags, forbidden_flags)
'''), ('''CompoundPos = Enum('CompoundPos', 'BEGIN MIDDLE END')
''', '''CompoundPos = Enum('CompoundPos', 'BEGIN MIDDLE END')
def has_right_flags(affix, required, forbidden):
    return all(flag in affix.flags for flag in required) and not any(flag in affix.flags for flag in forbidden)
'''))
t('isgood-parts', ('''        if aff.NEEDAFFIX:
            if aff.NEEDAFFIX in root_flags and not form.has_affixes():
                return False
            if form.has_affixes() and all(aff.NEEDAFFIX in a.flags for a in form.all_affixes()):
                return False
        if form.prefix and form.prefix.flag not in all_flags:
            return False
        if form.suffix and form.suffix.flag not in all_flags:
            return False
        if aff.CIRCUMFIX:
            suffix_has = form.suffix and aff.CIRCUMFIX in form.suffix.flags
            prefix_has = form.prefix and aff.CIRCUMFIX in form.prefix.flags
            if bool(prefix_has) != bool(suffix_has):
                return False
        if not compoundpos:
            return aff.ONLYINCOMPOUND not in all_flags
        if aff.COMPOUNDFLAG in all_flags:
            return True
        if compoundpos == CompoundPos.BEGIN:
            return aff.COMPOUNDBEGIN in all_flags
        if compoundpos == CompoundPos.END:
            return aff.COMPOUNDEND in all_flags
        if compoundpos == CompoundPos.MIDDLE:
            return aff.COMPOUNDMIDDLE in all_flags
        return False
''', '''        return (
            self._affixes_suffice(form) and
            all(affix.flag in all_flags for affix in (form.prefix, form.suffix) if affix) and
            self._circumfix_complete(form) and
            self._place_allowed(compoundpos, all_flags)
        )
    def _affixes_suffice(self, form):
        flag = self.aff.NEEDAFFIX
        if not flag:
            return True
        if form.has_affixes():
            return any(flag not in affix.flags for affix in form.all_affixes())
        return flag not in form.in_dictionary.flags
    def _circumfix_complete(self, form):
        flag = self.aff.CIRCUMFIX
        if not flag:
            return True
        on_prefix = bool(form.prefix) and flag in form.prefix.flags
        on_suffix = bool(form.suffix) and flag in form.suffix.flags
        return on_prefix == on_suffix
    def _place_allowed(self, place, flags):
        if not place:
            return self.aff.ONLYINCOMPOUND not in flags
        required = {
            CompoundPos.BEGIN: self.aff.COMPOUNDBEGIN,
            CompoundPos.MIDDLE: self.aff.COMPOUNDMIDDLE,
            CompoundPos.END: self.aff.COMPOUNDEND
        }
        return self.aff.COMPOUNDFLAG in flags or required[place] in flags
'''))
t('flags-one-loop', ('''            for form in self.affix_forms(beg, captype=captype, compoundpos=compoundpos,
                                         prefix_flags=prefix_flags,
                                         suffix_flags=permitflags,
                                         forbidden_flags=forbidden_flags,
                                         allow_nosuggest=allow_nosuggest):
                for partial in self.compounds_by_flags(rest, captype=captype, depth=depth+1,
                                                       allow_nosuggest=allow_nosuggest):
                    yield CompoundForm([form, *partial.parts])
            if aff.SIMPLIFIEDTRIPLE and beg[-1] == rest[0]:
                for form in self.affix_forms(beg + beg[-1], captype=captype, compoundpos=compoundpos,
                                             prefix_flags=prefix_flags,
                                             suffix_flags=permitflags,
                                             forbidden_flags=forbidden_flags,
                                             allow_nosuggest=allow_nosuggest):
                    for partial in self.compounds_by_flags(rest, captype=captype, depth=depth+1,
                                                           allow_nosuggest=allow_nosuggest):
                        yield CompoundForm([form.replace(text=beg), *partial.parts])
''', '''            def starts(text):
                return self.affix_forms(text, captype=captype, compoundpos=compoundpos, prefix_flags=prefix_flags,
                                        suffix_flags=permitflags, forbidden_flags=forbidden_flags,
                                        allow_nosuggest=allow_nosuggest)
            def endings():
                return self.compounds_by_flags(rest, captype=captype, depth=depth+1, allow_nosuggest=allow_nosuggest)
            for form in starts(beg):
                for partial in endings():
                    yield CompoundForm([form] + partial.parts)
            if aff.SIMPLIFIEDTRIPLE and beg[-1] == rest[0]:
                for form in starts(beg + beg[-1]):
                    for partial in endings():
                        yield CompoundForm([form.replace(text=beg)] + partial.parts)
'''))
t('bad-any', ('''            if aff.COMPOUNDFORBIDFLAG:
                if self.dic.has_flag(left, aff.COMPOUNDFORBIDFLAG):
                    return True
            if any(self.affix_forms(left + ' ' + right, captype=captype)):
                return True
            if aff.CHECKCOMPOUNDREP:
                for candidate in pmt.replchars(left + right, aff.REP):
                    if isinstance(candidate, str) and any(self.affix_forms(candidate, captype=captype)):
                        return True
''', '''            if aff.COMPOUNDFORBIDFLAG and self.dic.has_flag(left, aff.COMPOUNDFORBIDFLAG):
                return True
            def is_word(text):
                return any(self.affix_forms(text, captype=captype))
            if is_word(f'{left} {right}'):
                return True
            if aff.CHECKCOMPOUNDREP and any(
                    is_word(candidate) for candidate in pmt.replchars(left + right, aff.REP)
                    if isinstance(candidate, str)):
                return True
'''))
t('bad-zip', ('''        for idx, left_paradigm in enumerate(compound.parts[:-1]):
            left = left_paradigm.text
            right_paradigm = compound.parts[idx+1]
            right = right_paradigm.text
''', '''        parts = compound.parts
        last_boundary = len(parts) - 2
        for idx, (left_paradigm, right_paradigm) in enumerate(zip(parts, parts[1:])):
            left, right = left_paradigm.text, right_paradigm.text
'''), ('''                if left == right and idx == len(compound.parts) - 2:
                    return True
''', '''                if idx == last_boundary and left == right:
                    return True
'''))
t('bad-pair-method', ('''        for idx, left_paradigm in enumerate(compound.parts[:-1]):
            left = left_paradigm.text
            right_paradigm = compound.parts[idx+1]
            right = right_paradigm.text
''', '''        last = len(compound.parts) - 1
        return any(
            self._bad_boundary(compound.parts[i - 1], compound.parts[i], captype, is_last=(i == last))
            for i in range(1, last + 1)
        )
    def _bad_boundary(self, left_paradigm, right_paradigm, captype, is_last):
        aff = self.aff
        if True:
            left = left_paradigm.text
            right = right_paradigm.text
'''), ('''                if left == right and idx == len(compound.parts) - 2:
                    return True
''', '''                if left == right and is_last:
                    return True
'''))
t('rules-combined', ('''            for homonym in good_homonyms(beg):
                parts = [*prev_parts, homonym]
                flag_sets = [w.flags for w in parts]
                compoundrules = [r for r in rules if r.partial_match(flag_sets)]
                if compoundrules:
                    for rest in self.compounds_by_rules(word_rest[pos:], rules=compoundrules, prev_parts=parts,
                                                        allow_nosuggest=allow_nosuggest):
                        yield CompoundForm([AffixForm(beg, beg), *rest.parts])
''', '''            for homonym in good_homonyms(beg):
                parts = prev_parts + [homonym]
                flag_sets = flags_of(parts)
                compoundrules = list(filter(lambda rule: rule.partial_match(flag_sets), rules))
                if not compoundrules:
                    continue
                first = AffixForm(beg, beg)
                for rest in self.compounds_by_rules(word_rest[pos:], parts, compoundrules, allow_nosuggest):
                    yield CompoundForm([first] + rest.parts)
'''), ('''                parts = [*prev_parts, homonym]
                flag_sets = [w.flags for w in parts]
                if any(''', '''                flag_sets = flags_of([*prev_parts, homonym])
                if any('''), ('''        def good_homonyms(text):
''', '''        def flags_of(words):
            return [w.flags for w in words]
        def good_homonyms(text):
'''))
t('break-inner', ('''        yield [text]
        for pat in self.aff.BREAK:
            for m in pat.regexp.finditer(text):
                start = text[:m.start(1)]
                rest = text[m.end(1):]
                for breaking in self.break_word(rest, depth=depth+1):
                    yield [start, *breaking]
''', '''        yield [text]
        matches = (match for pattern in self.aff.BREAK for match in pattern.regexp.finditer(text))
        for match in matches:
            begin, end = match.span(1)
            for tail in self.break_word(text[end:], depth + 1):
                yield [text[:begin]] + tail
'''))
t('call-inline', ('''        def is_correct(w):
            return any(self.good_forms(w, capitalization=capitalization, allow_nosuggest=allow_nosuggest))
''', '''        options = {'capitalization': capitalization, 'allow_nosuggest': allow_nosuggest}
        def is_correct(w):
            for _ in self.good_forms(w, **options):
                return True
            return False
'''))
t('variants-default', ('''        if capitalization:
            captype, variants = self.aff.casing.variants(word)
        else:
            captype = self.aff.casing.guess(word)
            variants = [word]
        for variant in variants:
            if affix_forms:
                for form in self.affix_forms(variant, captype=captype, allow_nosuggest=allow_nosuggest):
                    if (self.aff.CHECKSHARPS and self.aff.KEEPCASE and  # pylint: disable=too-many-boolean-expressions
                            'ß' in form.in_dictionary.stem and self.aff.KEEPCASE in form.flags() and   # type: ignore
                            captype == CapType.ALL and 'ß' in word):
                        continue
                    yield form
''', '''        casing = self.aff.casing
        captype, variants = casing.variants(word) if capitalization else (casing.guess(word), [word])
        aff = self.aff
        check_sharps = aff.CHECKSHARPS and aff.KEEPCASE and captype == CapType.ALL and 'ß' in word
        for variant in variants:
            if affix_forms:
                for form in self.affix_forms(variant, captype=captype, allow_nosuggest=allow_nosuggest):
                    if check_sharps and 'ß' in form.in_dictionary.stem and aff.KEEPCASE in form.flags():
                        continue
                    yield form
'''))
t('form-flags', ('''        flags = self.in_dictionary.flags if self.in_dictionary else set()
        if self.prefix:
            flags = flags.union(self.prefix.flags)
        if self.suffix:
            flags = flags.union(self.suffix.flags)
        return flags
''', '''        sources = (self.in_dictionary, self.prefix, self.suffix)
        return set().union(*(source.flags for source in sources if source))
'''))
# suggest
t('handle-split', ('''            if (self.aff.KEEPCASE and self.dic.has_flag(text, self.aff.KEEPCASE) and not
                    (self.aff.CHECKSHARPS and 'ß' in text)):
                pass
            else:
                text = self.aff.casing.coerce(text, captype)
                if text != suggestion.text and is_forbidden(text):
                    text = suggestion.text
                if captype in [CapType.HUH, CapType.HUHINIT] and ' ' in text:
                    pos = text.find(' ')
                    if (pos + 1 < len(text) and pos < len(word) and
                            text[pos + 1] != word[pos] and text[pos + 1].upper() == word[pos]):
                        text = text[:pos+1] + word[pos] + text[pos+2:]
''', '''            if not keeps_case(text):
                text = with_case(text)
'''), ('''        handled: Set[str] = set()
''', '''        handled: Set[str] = set()
        def keeps_case(text):
            if not self.aff.KEEPCASE or not self.dic.has_flag(text, self.aff.KEEPCASE):
                return False
            return not (self.aff.CHECKSHARPS and 'ß' in text)
        def with_case(original):
            text = self.aff.casing.coerce(original, captype)
            if text != original and is_forbidden(text):
                text = original
            if captype not in [CapType.HUH, CapType.HUHINIT]:
                return text
            pos = text.find(' ')
            if pos == -1:
                return text
            if (pos + 1 < len(text) and pos < len(word) and
                    text[pos + 1] != word[pos] and text[pos + 1].upper() == word[pos]):
                return text[:pos+1] + word[pos] + text[pos+2:]
            return text
'''), file=S)
t('handle-nested', ('''            if is_forbidden(text):
                return
            text = self.aff.OCONV(text) if self.aff.OCONV else text
            if text in handled:
                return
            if check_inclusion and any(previous.lower() in text.lower() for previous in handled):
                return
            handled.add(text)
            yield suggestion.replace(text=text)
''', '''            if not is_forbidden(text):
                if self.aff.OCONV:
                    text = self.aff.OCONV(text)
                lowered = text.lower()
                repeated = text in handled or (
                    check_inclusion and any(previous.lower() in lowered for previous in handled))
                if not repeated:
                    handled.add(text)
                    yield suggestion.replace(text=text)
'''), file=S)
t('ngram-phonet', ('''        ngrams_seen = 0
        for sug in self.ngram_suggestions(word, handled=handled):
            for res in handle_found(Suggestion(sug, 'ngram'), check_inclusion=True):
                ngrams_seen += 1
                yield res
            if ngrams_seen >= self.aff.MAXNGRAMSUGS:
                break
        phonet_seen = 0
        for sug in self.phonet_suggestions(word):
            for res in handle_found(Suggestion(sug, 'phonet'), check_inclusion=True):
                phonet_seen += 1
                yield res
            if phonet_seen >= MAXPHONSUGS:
                break
''', '''        def limited(texts, kind, limit):
            seen = 0
            for text in texts:
                for res in handle_found(Suggestion(text, kind), check_inclusion=True):
                    seen += 1
                    yield res
                if seen >= limit:
                    return
        yield from limited(self.ngram_suggestions(word, handled=handled), 'ngram', self.aff.MAXNGRAMSUGS)
        yield from limited(self.phonet_suggestions(word), 'phonet', MAXPHONSUGS)
'''), file=S)
t('dashes-first', ('''            chunks = word.split('-')
            for idx, chunk in enumerate(chunks):
                if not is_good_suggestion(chunk):
                    for sug in self(chunk):
                        candidate = '-'.join([*chunks[:idx], sug, *chunks[idx+1:]])
                        if self.lookup(candidate, allow_nosuggest=False):
                            yield from handle_found(Suggestion(candidate, 'dashes'))
                    break
''', '''            chunks = word.split('-')
            misspelled = next((idx for idx, chunk in enumerate(chunks) if not is_good_suggestion(chunk)), None)
            if misspelled is not None:
                before, after = chunks[:misspelled], chunks[misspelled + 1:]
                for sug in self(chunks[misspelled]):
                    candidate = '-'.join(before + [sug] + after)
                    if self.lookup(candidate, allow_nosuggest=False):
                        yield from handle_found(Suggestion(candidate, 'dashes'))
'''), file=S)
t('rounds', ('''            nocompound = False
            for suggestion in self.edit_suggestions(variant, handle_found, limit=MAXSUGGESTIONS, compounds=False):
                yield suggestion
                good_edits_found = good_edits_found or (suggestion.kind in GOOD_EDITS)
                if suggestion.kind in ['uppercase', 'replchars', 'mapchars']:
                    nocompound = True
                if suggestion.kind == 'spaceword':
                    return
            if not nocompound:
                for suggestion in self.edit_suggestions(variant, handle_found,
                                                        limit=self.aff.MAXCPDSUGS, compounds=True):
                    yield suggestion
                    good_edits_found = good_edits_found or (suggestion.kind in GOOD_EDITS)
''', '''            try_compounds = True
            for suggestion in self.edit_suggestions(variant, handle_found, limit=MAXSUGGESTIONS, compounds=False):
                yield suggestion
                kind = suggestion.kind
                if kind == 'spaceword':
                    return
                if kind in GOOD_EDITS:
                    good_edits_found = True
                if kind in ('uppercase', 'replchars', 'mapchars'):
                    try_compounds = False
            if not try_compounds:
                continue
            for suggestion in self.edit_suggestions(variant, handle_found, limit=self.aff.MAXCPDSUGS, compounds=True):
                yield suggestion
                if suggestion.kind in GOOD_EDITS:
                    good_edits_found = True
'''), file=S)
t('filter-method', ('''        def filter_suggestions(suggestions):
            for suggestion in suggestions:
                if isinstance(suggestion, MultiWordSuggestion):
                    if all(is_good_suggestion(word) for word in suggestion.words):
                        yield suggestion.stringify()
                        if suggestion.allow_dash:
                            yield suggestion.stringify('-')
                else:
                    if is_good_suggestion(suggestion.text):
                        yield suggestion
''', '''        def confirmed(suggestion):
            if not isinstance(suggestion, MultiWordSuggestion):
                return [suggestion] if is_good_suggestion(suggestion.text) else []
            if not all(map(is_good_suggestion, suggestion.words)):
                return []
            if suggestion.allow_dash:
                return [suggestion.stringify(), suggestion.stringify('-')]
            return [suggestion.stringify()]
        def filter_suggestions(suggestions):
            for suggestion in suggestions:
                yield from confirmed(suggestion)
'''), file=S)
t('good-kwargs', ('''            if compounds:
                return any(self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False, affix_forms=False))
            return any(self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False, compound_forms=False))
''', '''            forms = self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False,
                                           affix_forms=not compounds, compound_forms=compounds)
            return any(forms)
'''), file=S)
# permutations
t('swap-helper', ('''    for i in range(len(word) - 1):
        yield word[:i] + word[i+1] + word[i] + word[i+2:]
''', '''    for i, (first, second) in enumerate(zip(word, word[1:])):
        yield word[:i] + second + first + word[i+2:]
'''), file=P)
t('badchar-all', ('''    for c in trystring:
        for i in reversed(range(len(word))):
            if word[i] == c:
                continue
            yield word[:i] + c + word[i+1:]
''', '''    for c in trystring:
        for i in range(len(word) - 1, -1, -1):
            if word[i] != c:
                yield word[:i] + c + word[i+1:]
'''), file=P)
t('key-neighbours', ('''        pos = layout.find(c)
        while pos != -1:
            if pos > 0 and layout[pos-1] != '|':
                yield before + layout[pos-1] + after
            if pos + 1 < len(layout) and layout[pos+1] != '|':
                yield before + layout[pos+1] + after
            pos = layout.find(c, pos+1)
''', '''        for pos, key in enumerate(layout):
            if key != c:
                continue
            if pos > 0 and layout[pos-1] != '|':
                yield before + layout[pos-1] + after
            if pos < len(layout) - 1 and layout[pos+1] != '|':
                yield before + layout[pos+1] + after
'''), file=P)
t('move-slices', ('''            yield word[:topos] + word[frompos] + word[topos:frompos] + word[frompos+1:]
''', '''            moved = word[frompos]
            rest = word[:frompos] + word[frompos+1:]
            yield rest[:topos] + moved + rest[topos:]
'''), file=P)
t('long-inner', ('''    for first in range(len(word) - 2):
        for second in range(first + 2, min(first + MAX_CHAR_DISTANCE, len(word))):
            yield word[:first] + word[second] + word[first+1:second] + word[first] + word[second+1:]
''', '''    length = len(word)
    for first in range(length - 2):
        for distance in range(2, MAX_CHAR_DISTANCE):
            second = first + distance
            if second >= length:
                break
            yield word[:first] + word[second] + word[first+1:second] + word[first] + word[second+1:]
'''), file=P)
# casing
t('variants-extra', ('''        if captype == Type.NO:
            result = [word]
        elif captype == Type.INIT:
            result = [word, *self.lower(word)]
        elif captype == Type.HUHINIT:
            result = [word, *self.lowerfirst(word)]
        elif captype == Type.HUH:
            result = [word]
        elif captype == Type.ALL:
            result = [word, *self.lower(word), *self.capitalize(word)]
        return (captype, result)
''', '''        extra = []
        if captype in (Type.INIT, Type.ALL):
            extra.extend(self.lower(word))
        if captype == Type.ALL:
            extra.extend(self.capitalize(word))
        if captype == Type.HUHINIT:
            extra.extend(self.lowerfirst(word))
        return (captype, [word] + extra)
'''), file=CAP)
t('guess-init', ('''        if word.islower():
            return Type.NO
        if word.isupper():
            return Type.ALL
        if word[:1].isupper():
            return Type.INIT if word[1:].islower() else Type.HUHINIT
        return Type.HUH
''', '''        if word.islower():
            return Type.NO
        if word.isupper():
            return Type.ALL
        starts_upper = word[:1].isupper()
        if starts_upper and word[1:].islower():
            return Type.INIT
        return Type.HUHINIT if starts_upper else Type.HUH
'''), file=CAP)
# data
t('conv-best', ('''        while pos < len(word):
            matches = sorted(
                [(search, pattern, replacement)
                 for search, pattern, replacement in self.table
                 if search and pattern.match(word, pos)],
                key=lambda r: len(r[0]),
                reverse=True
            )
            if matches:
                search, pattern, replacement = matches[0]
                res += replacement
                pos += len(search)
            else:
                res += word[pos]
                pos += 1
''', '''        while pos < len(word):
            best = None
            for search, pattern, replacement in self.table:
                if search and pattern.match(word, pos) and (best is None or len(search) > len(best[0])):
                    best = (search, replacement)
            if best is None:
                res += word[pos]
                pos += 1
            else:
                res += best[1]
                pos += len(best[0])
'''), file=DA)
t('has-flag-flat', ('''        if for_all:
            return all(flag in homonym.flags for homonym in homonyms)
''', '''        if for_all:
            return not any(flag not in homonym.flags for homonym in homonyms)
'''), file=DD)
t('pattern-match-parts', ('''        return (left.stem.endswith(self.left_stem)) and''', '''        return left.stem.endswith(self.left_stem) and'''), file=DA)
# readers
t('affix-locals', ('''        strip=('' if strip == '0' else strip),
''', '''        strip=strip if strip != '0' else '',
'''), file=RA)
t('read-aff-tables', ('''        if directive in ['SFX', 'PFX']:
            if value:
                data[directive][value[0].flag] = value
        else:
            data[directive] = value
        if directive == 'FLAG':
            context.flag_format = value
        elif directive == 'AF':
            context.flag_synonyms = value
        elif directive == 'SET':
            context.encoding = value
            source.reset_encoding(value)
        elif directive == 'IGNORE':
            context.ignore = value
        if directive == 'FLAG' and value == 'UTF-8':
            context.encoding = 'UTF-8'
            data['SET'] = 'UTF-8'
            source.reset_encoding('UTF-8')
''', '''        if directive not in ('SFX', 'PFX'):
            data[directive] = value
        elif value:
            data[directive][value[0].flag] = value
        encoding = None
        if directive == 'FLAG':
            context.flag_format = value
            if value == 'UTF-8':
                encoding = 'UTF-8'
                data['SET'] = encoding
        elif directive == 'AF':
            context.flag_synonyms = value
        elif directive == 'IGNORE':
            context.ignore = value
        elif directive == 'SET':
            encoding = value
        if encoding is not None:
            context.encoding = encoding
            source.reset_encoding(encoding)
'''), file=RA)
t('flags-table', ('''        if self.flag_format == 'short':
            return string
        if self.flag_format == 'long':
            return FLAG_LONG_REGEXP.findall(string)
        if self.flag_format == 'num':
            return FLAG_NUM_REGEXP.findall(string)
        if self.flag_format == 'UTF-8':
            return string
''', '''        if self.flag_format in ('short', 'UTF-8'):
            return string
        regexps = {'long': FLAG_LONG_REGEXP, 'num': FLAG_NUM_REGEXP}
        if self.flag_format in regexps:
            return regexps[self.flag_format].findall(string)
'''), file=RA)
t('dic-split-line', ('''        if word.startswith('/'):
            flags = ''
        else:
            word_with_flags = SLASH_REGEXP.split(word, 1)
            if len(word_with_flags) == 2:
                word, flags = word_with_flags
            else:
                flags = ''
''', '''        flags = ''
        if not word.startswith('/'):
            slash = SLASH_REGEXP.search(word)
            if slash:
                word, flags = word[:slash.start()], word[slash.end():]
'''), file=RD)
# ngram and metrics
t('roots-helper', ('''        score = root_score(misspelling, word.stem)
        if word.alt_spellings:
            for variant in word.alt_spellings:
                score = max(score, root_score(misspelling, variant))
''', '''        score = max(root_score(misspelling, text) for text in [word.stem, *word.alt_spellings])
'''), file=NG)
t('forms-cross', ('''    cross = [
        (prefix, suffix)
        for prefix in prefixes
        for suffix in suffixes
        if suffix.crossproduct and prefix.crossproduct
    ]
    for suf in suffixes:
        root = word.stem[0:-len(suf.strip)] if suf.strip else word.stem
        res.append(root + suf.add)
    for pref, suf in cross:
        root = word.stem[len(pref.strip):-len(suf.strip)] if suf.strip else word.stem[len(pref.strip):]
        res.append(pref.add + root + suf.add)
''', '''    for suf in suffixes:
        root = word.stem[:len(word.stem) - len(suf.strip)]
        res.append(root + suf.add)
    for pref in prefixes:
        if not pref.crossproduct:
            continue
        for suf in suffixes:
            if suf.crossproduct:
                root = word.stem[len(pref.strip):]
                if suf.strip:
                    root = word.stem[len(pref.strip):-len(suf.strip)]
                res.append(pref.add + root + suf.add)
'''), file=NG)
t('threshold-sum', ('''    thresh = 0.0
    for start_pos in range(1, 4):
        mangled = list(word)
        for pos in range(start_pos, len(word), 4):
            mangled[pos] = '*'
        mangled_word = ''.join(mangled)
        thresh += sm.ngram(len(word), word, mangled_word, any_mismatch=True)
    return thresh // 3 - 1
''', '''    def mangle(start_pos):
        letters = list(word)
        for pos in range(start_pos, len(word), 4):
            letters[pos] = '*'
        return ''.join(letters)
    total = 0.0
    for start_pos in (1, 2, 3):
        total += sm.ngram(len(word), word, mangle(start_pos), any_mismatch=True)
    return total // 3 - 1
'''), file=NG)
t('filter-flags', ('''    for (score, value) in guesses:
        if seen and score <= 1000:
            return
        if score > 1000:
            seen = True
        elif score < -100:
            if found > 0 or onlymaxdiff:
                return
            seen = True
''', '''    for score, value in guesses:
        very_good = score > 1000
        questionable = score < -100
        if not very_good and seen:
            return
        if questionable and (found > 0 or onlymaxdiff):
            return
        seen = seen or very_good or questionable
'''), file=NG)
t('precise-locals', ('''    if has_phonetic:
        questionable_limit = len(word2) * diff_factor
    else:
        questionable_limit = (len(word1) + len(word2)) * diff_factor
    if bigrams < questionable_limit:
        result -= 1000
    return result
''', '''    length = len(word2) if has_phonetic else len(word1) + len(word2)
    return result - 1000 if bigrams < length * diff_factor else result
'''), file=NG)
t('zip-first', ('''        aff_path = [name for name in file.namelist() if name.endswith('.aff')][0]
        dic_path = [name for name in file.namelist() if name.endswith('.dic')][0]
''', '''        def find(extension):
            return [name for name in file.namelist() if name.endswith(extension)][0]
        aff_path = find('.aff')
        dic_path = find('.dic')
'''), file=D)
t('phonet-words', ('''    misspelling = misspelling.lower()
''', '''    misspelling = str.lower(misspelling)
'''), file=PH)
t('trie-loop', ('''        for _, leaf in self.traverse(self.root, path):
            yield from leaf.payloads
''', '''        for found in self.traverse(self.root, path):
            for payload in found[1].payloads:
                yield payload
'''), file=TRIE)

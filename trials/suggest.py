"""Behaviour-preserving edits of algo/suggest.py"""
F = 'algo/suggest.py'
TRIALS = []


def t(name, *pairs, file=F):
    TRIALS.append((name, file, pairs))


t('init-loop', ('''        bad_flags = {*filter(None, [self.aff.FORBIDDENWORD, self.aff.NOSUGGEST, self.aff.ONLYINCOMPOUND])}
        self.words_for_ngram = [word for word in self.dic.words if not bad_flags.intersection(word.flags)]
''', '''        bad_flags = {flag for flag in (aff.FORBIDDENWORD, aff.NOSUGGEST, aff.ONLYINCOMPOUND) if flag}
        self.words_for_ngram = []
        for word in dic.words:
            if bad_flags.isdisjoint(word.flags):
                self.words_for_ngram.append(word)
'''))
t('init-method', ('''        bad_flags = {*filter(None, [self.aff.FORBIDDENWORD, self.aff.NOSUGGEST, self.aff.ONLYINCOMPOUND])}
        self.words_for_ngram = [word for word in self.dic.words if not bad_flags.intersection(word.flags)]
''', '''        self.words_for_ngram = self._ngram_words()

    def _ngram_words(self):
        bad_flags = [self.aff.FORBIDDENWORD, self.aff.NOSUGGEST, self.aff.ONLYINCOMPOUND]
        return [
            word for word in self.dic.words
            if not any(flag in word.flags for flag in bad_flags if flag)
        ]
'''))
t('init-and', ('''if not bad_flags.intersection(word.flags)]
''', '''if not bad_flags & word.flags]
'''))
t('call-for', ('''        yield from (suggestion.text for suggestion in self.suggestions(word))
''', '''        for suggestion in self.suggestions(word):
            yield suggestion.text
'''))
t('call-return-gen', ('''        yield from (suggestion.text for suggestion in self.suggestions(word))
''', '''        return (suggestion.text for suggestion in self.suggestions(word))
'''))
t('forbidden-method', ('''        def is_forbidden(word):
            return self.aff.FORBIDDENWORD and self.dic.has_flag(word, self.aff.FORBIDDENWORD)
''', ''), ('''                if text != suggestion.text and is_forbidden(text):
''', '''                if text != suggestion.text and self._is_forbidden(text):
'''), ('''            if is_forbidden(text):
                return
''', '''            if self._is_forbidden(text):
                return
'''), ('''    def use_dash(self) -> bool:
''', '''    def _is_forbidden(self, word):
        flag = self.aff.FORBIDDENWORD
        return bool(flag) and self.dic.has_flag(word, flag)

    def use_dash(self) -> bool:
'''))
t('handle-invert', ('''            if (self.aff.KEEPCASE and self.dic.has_flag(text, self.aff.KEEPCASE) and not
                    (self.aff.CHECKSHARPS and 'ß' in text)):
                pass
            else:
''', '''            keep_case = self.aff.KEEPCASE and self.dic.has_flag(text, self.aff.KEEPCASE)
            if not keep_case or (self.aff.CHECKSHARPS and 'ß' in text):
'''))
t('handle-case-helper', ('''            text = suggestion.text
            if (self.aff.KEEPCASE and self.dic.has_flag(text, self.aff.KEEPCASE) and not
                    (self.aff.CHECKSHARPS and 'ß' in text)):
                pass
            else:
                text = self.aff.casing.coerce(text, captype)
                if text != suggestion.text and is_forbidden(text):
                    text = suggestion.text
                if captype in [CapType.HUH, CapType.HUHINIT] and ' ' in text:
                    pos = text.find(' ')
                    if (pos + 1 < len(text) and pos < len(word) and
                            text[pos + 1] != word[pos] and text[pos + 1].upper() == word[pos]):
                        text = text[:pos+1] + word[pos] + text[pos+2:]
''', '''            text = recase(suggestion.text)
'''), ('''        handled: Set[str] = set()
''', '''        handled: Set[str] = set()

        def recase(original):
            text = original
            if (self.aff.KEEPCASE and self.dic.has_flag(text, self.aff.KEEPCASE) and not
                    (self.aff.CHECKSHARPS and 'ß' in text)):
                return text

            text = self.aff.casing.coerce(text, captype)
            if text != original and is_forbidden(text):
                text = original
            if captype in [CapType.HUH, CapType.HUHINIT] and ' ' in text:
                pos = text.find(' ')
                if (pos + 1 < len(text) and pos < len(word) and
                        text[pos + 1] != word[pos] and text[pos + 1].upper() == word[pos]):
                    text = text[:pos+1] + word[pos] + text[pos+2:]
            return text
'''))
t('handle-coerced', ('''                text = self.aff.casing.coerce(text, captype)
                if text != suggestion.text and is_forbidden(text):
                    text = suggestion.text
''', '''                coerced = self.aff.casing.coerce(text, captype)
                if coerced == text or not is_forbidden(coerced):
                    text = coerced
'''))
t('handle-oconv', ('''            text = self.aff.OCONV(text) if self.aff.OCONV else text
''', '''            if self.aff.OCONV:
                text = self.aff.OCONV(text)
'''))
t('handle-inclusion', ('''            if text in handled:
                return
            if check_inclusion and any(previous.lower() in text.lower() for previous in handled):
                return
            handled.add(text)
            yield suggestion.replace(text=text)
''', '''            if text not in handled:
                lowered = text.lower()
                if check_inclusion:
                    for previous in handled:
                        if previous.lower() in lowered:
                            return
                handled.add(text)
                yield suggestion.replace(text=text)
'''))
t('handle-new-suggestion', ('''            yield suggestion.replace(text=text)
''', '''            yield Suggestion(text, suggestion.kind)
'''))
t('handle-list', ('''            if is_forbidden(text):
                return
            text = self.aff.OCONV(text) if self.aff.OCONV else text
            if text in handled:
                return
            if check_inclusion and any(previous.lower() in text.lower() for previous in handled):
                return
            handled.add(text)
            yield suggestion.replace(text=text)
''', '''            if is_forbidden(text):
                return []
            text = self.aff.OCONV(text) if self.aff.OCONV else text
            if text in handled:
                return []
            if check_inclusion and any(previous.lower() in text.lower() for previous in handled):
                return []
            handled.add(text)
            return [suggestion.replace(text=text)]
'''))
t('handle-space-partition', ('''                if captype in [CapType.HUH, CapType.HUHINIT] and ' ' in text:
                    pos = text.find(' ')
                    if (''', '''                pos = text.find(' ')
                if pos != -1 and captype in (CapType.HUH, CapType.HUHINIT):
                    if ('''))
t('force-helper', ('''            for capitalized in self.aff.casing.capitalize(word):
                if is_good_suggestion(capitalized):
                    yield from handle_found(Suggestion(capitalized.capitalize(), 'forceucase'))
                    return  # No more need to check anything
''', '''            good = [text for text in self.aff.casing.capitalize(word) if is_good_suggestion(text)]
            if good:
                yield from handle_found(Suggestion(good[0].capitalize(), 'forceucase'))
                return
'''))
t('main-kinds-set', ('''                if suggestion.kind in ['uppercase', 'replchars', 'mapchars']:
                    nocompound = True
                if suggestion.kind == 'spaceword':
                    return
''', '''                kind = suggestion.kind
                if kind == 'spaceword':
                    return
                nocompound = nocompound or kind in {'uppercase', 'replchars', 'mapchars'}
'''))
t('main-good-edits', ('''                yield suggestion
                good_edits_found = good_edits_found or (suggestion.kind in GOOD_EDITS)
                if suggestion.kind in''', '''                yield suggestion
                if suggestion.kind in GOOD_EDITS:
                    good_edits_found = True
                if suggestion.kind in'''))
t('main-good-edits-both', ('''                yield suggestion
                good_edits_found = good_edits_found or (suggestion.kind in GOOD_EDITS)
                if suggestion.kind in''', '''                yield suggestion
                good_edits_found |= suggestion.kind in GOOD_EDITS
                if suggestion.kind in'''), ('''                    yield suggestion
                    good_edits_found = good_edits_found or (suggestion.kind in GOOD_EDITS)
        if''', '''                    yield suggestion
                    good_edits_found |= suggestion.kind in GOOD_EDITS
        if'''))
t('main-continue', ('''            if not nocompound:
                for suggestion in self.edit_suggestions(variant, handle_found,
                                                        limit=self.aff.MAXCPDSUGS, compounds=True):
                    yield suggestion
                    good_edits_found = good_edits_found or (suggestion.kind in GOOD_EDITS)
''', '''            if nocompound:
                continue

            for suggestion in self.edit_suggestions(variant, handle_found,
                                                    compounds=True, limit=self.aff.MAXCPDSUGS):
                good_edits_found = good_edits_found or (suggestion.kind in GOOD_EDITS)
                yield suggestion
'''))
t('dash-helper', ('''        if '-' in word and not any('-' in sug for sug in handled):
            chunks = word.split('-')
            for idx, chunk in enumerate(chunks):
                if not is_good_suggestion(chunk):
                    for sug in self(chunk):
                        candidate = '-'.join([*chunks[:idx], sug, *chunks[idx+1:]])
                        if self.lookup(candidate, allow_nosuggest=False):
                            yield from handle_found(Suggestion(candidate, 'dashes'))
                    break
''', '''        if '-' in word and not any('-' in sug for sug in handled):
            for candidate in self._dash_candidates(word, is_good_suggestion):
                yield from handle_found(Suggestion(candidate, 'dashes'))
'''), ('''    def edit_suggestions(self,''', '''    def _dash_candidates(self, word, is_good):
        chunks = word.split('-')
        for idx, chunk in enumerate(chunks):
            if not is_good(chunk):
                for sug in self(chunk):
                    candidate = '-'.join([*chunks[:idx], sug, *chunks[idx+1:]])
                    if self.lookup(candidate, allow_nosuggest=False):
                        yield candidate
                return

    def edit_suggestions(self,'''))
t('dash-all', ('''        if '-' in word and not any('-' in sug for sug in handled):
''', '''        if '-' in word and all('-' not in sug for sug in handled):
'''))
t('dash-slices', ('''                        candidate = '-'.join([*chunks[:idx], sug, *chunks[idx+1:]])
''', '''                        candidate = '-'.join(chunks[:idx] + [sug] + chunks[idx + 1:])
'''))
t('dash-continue', ('''                if not is_good_suggestion(chunk):
                    for sug in self(chunk):
                        candidate = '-'.join([*chunks[:idx], sug, *chunks[idx+1:]])
                        if self.lookup(candidate, allow_nosuggest=False):
                            yield from handle_found(Suggestion(candidate, 'dashes'))
                    break
''', '''                if is_good_suggestion(chunk):
                    continue
                for sug in self(chunk):
                    candidate = '-'.join([*chunks[:idx], sug, *chunks[idx+1:]])
                    if not self.lookup(candidate, allow_nosuggest=False):
                        continue
                    yield from handle_found(Suggestion(candidate, 'dashes'))
                break
'''))
t('ngram-helper', ('''        ngrams_seen = 0
        for sug in self.ngram_suggestions(word, handled=handled):
            for res in handle_found(Suggestion(sug, 'ngram'), check_inclusion=True):
                ngrams_seen += 1
                yield res
            if ngrams_seen >= self.aff.MAXNGRAMSUGS:
                break
        phonet_seen = 0
        for sug in self.phonet_suggestions(word):
            for res in handle_found(Suggestion(sug, 'phonet'), check_inclusion=True):
                phonet_seen += 1
                yield res
            if phonet_seen >= MAXPHONSUGS:
                break
''', '''        def limited(texts, kind, limit):
            seen = 0
            for text in texts:
                for res in handle_found(Suggestion(text, kind), check_inclusion=True):
                    seen += 1
                    yield res
                if seen >= limit:
                    break

        yield from limited(self.ngram_suggestions(word, handled=handled), 'ngram', self.aff.MAXNGRAMSUGS)
        yield from limited(self.phonet_suggestions(word), 'phonet', MAXPHONSUGS)
'''))
t('ngram-count-before', ('''            for res in handle_found(Suggestion(sug, 'ngram'), check_inclusion=True):
                ngrams_seen += 1
                yield res
            if ngrams_seen >= self.aff.MAXNGRAMSUGS:
                break
''', '''            found = list(handle_found(Suggestion(sug, 'ngram'), check_inclusion=True))
            ngrams_seen += len(found)
            yield from found
            if ngrams_seen >= self.aff.MAXNGRAMSUGS:
                break
'''))
t('phonet-remaining', ('''        phonet_seen = 0
        for sug in self.phonet_suggestions(word):
            for res in handle_found(Suggestion(sug, 'phonet'), check_inclusion=True):
                phonet_seen += 1
                yield res
            if phonet_seen >= MAXPHONSUGS:
                break
''', '''        remaining = MAXPHONSUGS
        for sug in self.phonet_suggestions(word):
            for res in handle_found(Suggestion(sug, 'phonet'), check_inclusion=True):
                yield res
                remaining -= 1
            if remaining <= 0:
                return
'''))
t('filter-kwargs', ('''            if compounds:
                return any(self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False, affix_forms=False))
            return any(self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False, compound_forms=False))
''', '''            return any(self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False,
                                              affix_forms=not compounds, compound_forms=compounds))
'''))
t('filter-elif', ('''                if isinstance(suggestion, MultiWordSuggestion):
                    if all(is_good_suggestion(word) for word in suggestion.words):
                        yield suggestion.stringify()
                        if suggestion.allow_dash:
                            yield suggestion.stringify('-')
                else:
                    if is_good_suggestion(suggestion.text):
                        yield suggestion
''', '''                if not isinstance(suggestion, MultiWordSuggestion):
                    if is_good_suggestion(suggestion.text):
                        yield suggestion
                    continue

                if any(not is_good_suggestion(word) for word in suggestion.words):
                    continue
                yield suggestion.stringify(' ')
                if suggestion.allow_dash:
                    yield suggestion.stringify(separator='-')
'''))
t('filter-method', ('''        def filter_suggestions(suggestions):
            for suggestion in suggestions:
                if isinstance(suggestion, MultiWordSuggestion):
                    if all(is_good_suggestion(word) for word in suggestion.words):
                        yield suggestion.stringify()
                        if suggestion.allow_dash:
                            yield suggestion.stringify('-')
                else:
                    if is_good_suggestion(suggestion.text):
                        yield suggestion
        if limit <= 0:
            return
        count = 0
        for suggestion in filter_suggestions(self.edits(word)):
''', '''        if limit <= 0:
            return
        count = 0
        for suggestion in self._filter_suggestions(self.edits(word), is_good_suggestion):
'''), ('''    def edits(self, word: str)''', '''    @staticmethod
    def _filter_suggestions(suggestions, is_good):
        for suggestion in suggestions:
            if isinstance(suggestion, MultiWordSuggestion):
                if all(map(is_good, suggestion.words)):
                    yield suggestion.stringify()
                    if suggestion.allow_dash:
                        yield suggestion.stringify('-')
            elif is_good(suggestion.text):
                yield suggestion

    def edits(self, word: str)'''))
t('limit-flat', ('''        if limit <= 0:
            return
        count = 0
        for suggestion in filter_suggestions(self.edits(word)):
            for res in handle_found(suggestion):
                yield res
                count += 1
                if count >= limit:
                    return
''', '''        if limit > 0:
            found = (res for suggestion in filter_suggestions(self.edits(word)) for res in handle_found(suggestion))
            for count, res in enumerate(found, 1):
                yield res
                if count >= limit:
                    return
'''))
t('limit-islice', ('''        if limit <= 0:
            return
        count = 0
        for suggestion in filter_suggestions(self.edits(word)):
            for res in handle_found(suggestion):
                yield res
                count += 1
                if count >= limit:
                    return
''', '''        found = (res for suggestion in filter_suggestions(self.edits(word)) for res in handle_found(suggestion))
        yield from itertools.islice(found, max(limit, 0))
'''), ('''import dataclasses
''', '''import dataclasses
import itertools
'''))
t('limit-left', ('''        count = 0
        for suggestion in filter_suggestions(self.edits(word)):
            for res in handle_found(suggestion):
                yield res
                count += 1
                if count >= limit:
                    return
''', '''        left = limit
        for suggestion in filter_suggestions(self.edits(word)):
            for res in handle_found(suggestion):
                yield res
                left -= 1
                if left <= 0:
                    return
'''))
t('edits-table', ('''        for suggestion in pmt.swapchar(word):
            yield Suggestion(suggestion, 'swapchar')
        for suggestion in pmt.longswapchar(word):
            yield Suggestion(suggestion, 'longswapchar')
        for suggestion in pmt.badcharkey(word, self.aff.KEY):
            yield Suggestion(suggestion, 'badcharkey')
        for suggestion in pmt.extrachar(word):
            yield Suggestion(suggestion, 'extrachar')
        for suggestion in pmt.forgotchar(word, self.aff.TRY):
            yield Suggestion(suggestion, 'forgotchar')
        for suggestion in pmt.movechar(word):
            yield Suggestion(suggestion, 'movechar')
        for suggestion in pmt.badchar(word, self.aff.TRY):
            yield Suggestion(suggestion, 'badchar')
        for suggestion in pmt.doubletwochars(word):
            yield Suggestion(suggestion, 'doubletwochars')
''', '''        generators = [
            ('swapchar', pmt.swapchar(word)),
            ('longswapchar', pmt.longswapchar(word)),
            ('badcharkey', pmt.badcharkey(word, self.aff.KEY)),
            ('extrachar', pmt.extrachar(word)),
            ('forgotchar', pmt.forgotchar(word, self.aff.TRY)),
            ('movechar', pmt.movechar(word)),
            ('badchar', pmt.badchar(word, self.aff.TRY)),
            ('doubletwochars', pmt.doubletwochars(word)),
        ]
        for kind, texts in generators:
            for text in texts:
                yield Suggestion(text, kind)
'''))
t('edits-helper', ('''        for suggestion in pmt.swapchar(word):
            yield Suggestion(suggestion, 'swapchar')
        for suggestion in pmt.longswapchar(word):
            yield Suggestion(suggestion, 'longswapchar')
        for suggestion in pmt.badcharkey(word, self.aff.KEY):
            yield Suggestion(suggestion, 'badcharkey')
        for suggestion in pmt.extrachar(word):
            yield Suggestion(suggestion, 'extrachar')
        for suggestion in pmt.forgotchar(word, self.aff.TRY):
            yield Suggestion(suggestion, 'forgotchar')
        for suggestion in pmt.movechar(word):
            yield Suggestion(suggestion, 'movechar')
        for suggestion in pmt.badchar(word, self.aff.TRY):
            yield Suggestion(suggestion, 'badchar')
        for suggestion in pmt.doubletwochars(word):
            yield Suggestion(suggestion, 'doubletwochars')
''', '''        def named(kind, texts):
            return (Suggestion(text, kind) for text in texts)

        yield from named('swapchar', pmt.swapchar(word))
        yield from named('longswapchar', pmt.longswapchar(word))
        yield from named('badcharkey', pmt.badcharkey(word, self.aff.KEY))
        yield from named('extrachar', pmt.extrachar(word))
        yield from named('forgotchar', pmt.forgotchar(word, self.aff.TRY))
        yield from named('movechar', pmt.movechar(word))
        yield from named('badchar', pmt.badchar(word, self.aff.TRY))
        yield from named('doubletwochars', pmt.doubletwochars(word))
'''))
t('edits-simple-method', ('''        for suggestion in pmt.swapchar(word):
            yield Suggestion(suggestion, 'swapchar')
        for suggestion in pmt.longswapchar(word):
            yield Suggestion(suggestion, 'longswapchar')
''', '''        yield from self._wrap(pmt.swapchar, 'swapchar', word)
        yield from self._wrap(pmt.longswapchar, 'longswapchar', word)
'''), ('''    def use_dash(self) -> bool:
''', '''    @staticmethod
    def _wrap(generator, kind, *args):
        for suggestion in generator(*args):
            yield Suggestion(suggestion, kind)

    def use_dash(self) -> bool:
'''))
t('edits-dash-hoist', ('''        for words in pmt.twowords(word):
            yield Suggestion(' '.join(words), 'spaceword')
            if self.use_dash():
                yield Suggestion('-'.join(words), 'spaceword')
''', '''        separators = [' ', '-'] if self.use_dash() else [' ']
        for words in pmt.twowords(word):
            for separator in separators:
                yield Suggestion(separator.join(words), 'spaceword')
'''))
t('edits-dash-var', ('''        for words in pmt.twowords(word):
            yield Suggestion(' '.join(words), 'spaceword')
            if self.use_dash():
                yield Suggestion('-'.join(words), 'spaceword')
''', '''        use_dash = self.use_dash()
        for first, second in pmt.twowords(word):
            yield Suggestion(first + ' ' + second, 'spaceword')
            if use_dash:
                yield Suggestion(f'{first}-{second}', 'spaceword')
'''))
t('edits-nosplit', ('''        if not self.aff.NOSPLITSUGS:
            for suggestion_pair in pmt.twowords(word):
                yield MultiWordSuggestion(suggestion_pair, 'twowords', allow_dash=self.use_dash())
''', '''        if self.aff.NOSPLITSUGS:
            return

        allow_dash = self.use_dash()
        for suggestion_pair in pmt.twowords(word):
            yield MultiWordSuggestion(suggestion_pair, 'twowords', allow_dash)
'''))
t('edits-rep', ('''            if isinstance(suggestion, list):
                yield Suggestion(' '.join(suggestion), 'replchars')
                yield MultiWordSuggestion(suggestion, 'replchars', allow_dash=False)
            else:
                yield Suggestion(suggestion, 'replchars')
''', '''            if isinstance(suggestion, str):
                yield Suggestion(suggestion, 'replchars')
                continue
            yield Suggestion(' '.join(suggestion), 'replchars')
            yield MultiWordSuggestion(words=suggestion, source='replchars', allow_dash=False)
'''))
t('ngram-args', ('''        yield from ngram_suggest.ngram_suggest(
                    word.lower(),
                    dictionary_words=self.words_for_ngram,
                    prefixes=self.aff.PFX, suffixes=self.aff.SFX,
                    known={*(word.lower() for word in handled)},
''', '''        known = set()
        for text in handled:
            known.add(text.lower())

        yield from ngram_suggest.ngram_suggest(
                    word.lower(),
                    dictionary_words=self.words_for_ngram,
                    prefixes=self.aff.PFX, suffixes=self.aff.SFX,
                    known=known,
'''))
t('ngram-set-comp', ('''                    known={*(word.lower() for word in handled)},
''', '''                    known={text.lower() for text in handled},
'''))
t('ngram-map', ('''                    known={*(word.lower() for word in handled)},
''', '''                    known=set(map(str.lower, handled)),
'''))
t('ngram-guard', ('''        if self.aff.MAXNGRAMSUGS == 0:
            return
''', '''        if not self.aff.MAXNGRAMSUGS:
            return
'''))
t('use-dash-any', ('''        return '-' in self.aff.TRY or 'a' in self.aff.TRY
''', '''        return any(char in self.aff.TRY for char in '-a')
'''))
t('phonet-positive', ('''        if not self.aff.PHONE:
            return
        yield from phonet_suggest.phonet_suggest(word, dictionary_words=self.words_for_ngram, table=self.aff.PHONE)
''', '''        table = self.aff.PHONE
        if table:
            yield from phonet_suggest.phonet_suggest(word, dictionary_words=self.words_for_ngram, table=table)
'''))
t('state-object', ('''        handled: Set[str] = set()
''', '''        handled = set()
'''), ('''            handled.add(text)
''', '''            handled.update([text])
'''))
t('constants-tuple', ('''GOOD_EDITS = ['spaceword', 'uppercase', 'replchars']
''', '''GOOD_EDITS = frozenset(['spaceword', 'uppercase', 'replchars'])
'''))
t('stringify-fields', ('''        return Suggestion(separator.join(self.words), self.source)
''', '''        text = separator.join(self.words)
        return Suggestion(text=text, kind=self.source)
'''))

"""Wrong edits of the suggesting side the check of the named property must object to"""
F = 'algo/suggest.py'
PMT = 'algo/permutations.py'
NG = 'algo/ngram_suggest.py'
PH = 'algo/phonet_suggest.py'
SM = 'algo/string_metrics.py'
BUGS = []


def b(prop, name, *pairs, file=F):
    BUGS.append((prop, name, file, pairs))


b('C14', 'forbidden-for-all', ('return self.aff.FORBIDDENWORD and self.dic.has_flag(word, self.aff.FORBIDDENWORD)', 'return self.aff.FORBIDDENWORD and self.dic.has_flag(word, self.aff.FORBIDDENWORD, for_all=True)'))
b('C14', 'forbidden-original', ('''            if is_forbidden(text):
                return
''', '''            if is_forbidden(suggestion.text):
                return
'''))
b('C14', 'forbidden-else-only', ('''            if is_forbidden(text):
                return
            text = self.aff.OCONV(text) if self.aff.OCONV else text
''', '''            text = self.aff.OCONV(text) if self.aff.OCONV else text
            if is_forbidden(text):
                return
'''))
b('C14', 'forbidden-keepcase', ('''            if is_forbidden(text):
                return
''', '''            if text == suggestion.text and is_forbidden(text):
                return
'''))
b('C14', 'forbidden-inclusion', ('''            if is_forbidden(text):
                return
''', '''            if not check_inclusion and is_forbidden(text):
                return
'''))
b('C14', 'forbidden-lower', ('self.dic.has_flag(word, self.aff.FORBIDDENWORD)\n', 'self.dic.has_flag(word.lower(), self.aff.FORBIDDENWORD)\n'))
b('C15', 'handled-original', ('handled.add(text)', 'handled.add(suggestion.text)'))
b('C15', 'handled-before-oconv', ('''            text = self.aff.OCONV(text) if self.aff.OCONV else text
            if text in handled:
                return
''', '''            if text in handled:
                return
            text = self.aff.OCONV(text) if self.aff.OCONV else text
'''))
b('C15', 'handled-inclusion', ('''            if text in handled:
                return
            if check_inclusion and''', '''            if check_inclusion and text in handled:
                return
            if check_inclusion and'''))
b('C15', 'handled-lower', ('''            if text in handled:
                return
''', '''            if text.lower() in handled:
                return
'''))
b('C15', 'handled-reset', ('''        for idx, variant in enumerate(variants):
            if idx > 0''', '''        for idx, variant in enumerate(variants):
            handled = set()
            if idx > 0'''))
b('C15', 'handled-dashes', ('yield from handle_found(Suggestion(candidate, \'dashes\'))', 'yield Suggestion(candidate, \'dashes\')'))
b('C15', 'handled-case', ("yield from handle_found(Suggestion(variant, 'case'))", "yield Suggestion(variant, 'case')"))
b('C16', 'dash-nosuggest', ('if self.lookup(candidate, allow_nosuggest=False):', 'if self.lookup(candidate):'))
b('C16', 'compound-nosuggest', ('return any(self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False, affix_forms=False))', 'return any(self.lookup.good_forms(word, capitalization=False, affix_forms=False))'))
b('C16', 'good-nosuggest', ('''            return any(self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False))
        def is_forbidden''', '''            return any(self.lookup.good_forms(word, capitalization=False))
        def is_forbidden'''))
b('C16', 'ngram-nosuggest', ('[self.aff.FORBIDDENWORD, self.aff.NOSUGGEST, self.aff.ONLYINCOMPOUND]', '[self.aff.FORBIDDENWORD, self.aff.ONLYINCOMPOUND]'))
b('C16', 'ngram-subset', ('if not bad_flags.intersection(word.flags)]', 'if not bad_flags or not bad_flags.issubset(word.flags)]'))
b('C17', 'multi-any', ('if all(is_good_suggestion(word) for word in suggestion.words):', 'if any(is_good_suggestion(word) for word in suggestion.words):'))
b('C17', 'multi-first', ('if all(is_good_suggestion(word) for word in suggestion.words):', 'if is_good_suggestion(suggestion.words[0]) and is_good_suggestion(suggestion.words[-1]):'))
b('C17', 'dash-unchecked', ('''                        if self.lookup(candidate, allow_nosuggest=False):
                            yield''', '''                        if is_good_suggestion(sug):
                            yield'''))
b('C17', 'capitalization-true', ('good_forms(word, capitalization=False, allow_nosuggest=False, compound_forms=False)', 'good_forms(word, allow_nosuggest=False, compound_forms=False)'))
b('C17', 'uppercase-free', ('if is_good_suggestion(suggestion.text):', "if suggestion.kind == 'uppercase' or is_good_suggestion(suggestion.text):"))
b('C17', 'case-unchecked', ('if idx > 0 and is_good_suggestion(variant):', 'if idx > 0 and (idx > 1 or is_good_suggestion(variant)):'))
b('C17', 'compounds-both', ('allow_nosuggest=False, affix_forms=False))', 'allow_nosuggest=False))'))
b('C18', 'limit-after', ('''                count += 1
                if count >= limit:
                    return''', '''                count += 1
                if count > limit:
                    return'''))
b('C18', 'limit-handled', ('''            for res in handle_found(suggestion):
                yield res
                count += 1
                if count >= limit:
                    return''', '''            count += 1
            if count > limit:
                return
            yield from handle_found(suggestion)'''))
b('C18', 'ngram-limit', ('if ngrams_seen >= self.aff.MAXNGRAMSUGS:', 'if ngrams_seen > self.aff.MAXNGRAMSUGS:'))
b('C18', 'ngram-limit-zero', ('''        if self.aff.MAXNGRAMSUGS == 0:
            return
''', ''))
b('C18', 'phonet-limit', ('if phonet_seen >= MAXPHONSUGS:', 'if phonet_seen > MAXPHONSUGS:'))
b('C18', 'phonet-shared', ('''                phonet_seen += 1
                yield res''', '''                ngrams_seen += 1
                yield res'''))
b('C18', 'cpd-limit', ('limit=self.aff.MAXCPDSUGS, compounds=True', 'limit=MAXSUGGESTIONS, compounds=True'))
b('C18', 'max-20', ('MAXSUGGESTIONS = 15', 'MAXSUGGESTIONS = 16'))
b('C18', 'limit-zero', ('''        if limit <= 0:
            return
''', ''))
b('C18', 'count-reset', ('''        count = 0
        for suggestion in filter_suggestions(self.edits(word)):
''', '''        for suggestion in filter_suggestions(self.edits(word)):
            count = 0
'''))
b('C19', 'oconv-twice', ('yield suggestion.replace(text=text)', 'yield suggestion.replace(text=self.aff.OCONV(text) if self.aff.OCONV else text)'))
b('C19', 'oconv-skipped', ('text = self.aff.OCONV(text) if self.aff.OCONV else text', 'text = self.aff.OCONV(text) if self.aff.OCONV and not check_inclusion else text'))
b('C19', 'oconv-call', ('yield from (suggestion.text for suggestion in self.suggestions(word))', 'yield from (self.aff.OCONV(suggestion.text) if self.aff.OCONV else suggestion.text for suggestion in self.suggestions(word))'))
b('C19', 'keepcase-sharps', ("not\n                    (self.aff.CHECKSHARPS and 'ß' in text)", "not\n                    self.aff.CHECKSHARPS"))
b('C19', 'coerce-forbidden', ('''                if text != suggestion.text and is_forbidden(text):
                    text = suggestion.text
''', ''))
b('C19', 'space-first', ("pos = text.find(' ')", "pos = text.rfind(' ')"))
b('C19', 'space-huh', ("if captype in [CapType.HUH, CapType.HUHINIT] and ' ' in text:", "if captype == CapType.HUH and ' ' in text:"))
b('C19', 'space-slice', ('text = text[:pos+1] + word[pos] + text[pos+2:]', 'text = text[:pos+1] + word[pos] + text[pos+1:]'))
b('C19', 'space-upper', ('text[pos + 1] != word[pos] and text[pos + 1].upper() == word[pos]', 'text[pos + 1] != word[pos]'))
b('C19', 'keepcase-raw', ('self.dic.has_flag(text, self.aff.KEEPCASE)', 'self.dic.has_flag(text, self.aff.KEEPCASE, for_all=True)'))
b('C20', 'swap-last', ('for i in range(len(word) - 1):', 'for i in range(len(word) - 2):'), file=PMT)
b('C20', 'swap-double4', ('if len(word) in [4,  5]:', 'if len(word) in [4, 5, 6]:'), file=PMT)
b('C20', 'swap-five', ("(word[2] if len(word) == 5 else '')", "(word[2] if len(word) == 4 else '')"), file=PMT)
b('C20', 'longswap-distance', ('range(first + 2, min(first + MAX_CHAR_DISTANCE, len(word)))', 'range(first + 2, min(first + MAX_CHAR_DISTANCE, len(word) - 1))'), file=PMT)
b('C20', 'longswap-constant', ('MAX_CHAR_DISTANCE = 4', 'MAX_CHAR_DISTANCE = 5'), file=PMT)
b('C20', 'extra-last', ('''    for i in range(len(word)):
        yield word[:i] + word[i+1:]''', '''    for i in range(len(word) - 1):
        yield word[:i] + word[i+1:]'''), file=PMT)
b('C20', 'extra-adjacent', ('''    for i in range(len(word)):
        yield word[:i] + word[i+1:]''', '''    for i in range(len(word)):
        if i and word[i] == word[i-1]:
            continue
        yield word[:i] + word[i+1:]'''), file=PMT)
b('C20', 'forgot-end', ('for i in range(len(word) + 1):', 'for i in range(len(word)):'), file=PMT)
b('C20', 'badchar-first', ('for i in reversed(range(len(word))):\n            if', 'for i in reversed(range(1, len(word))):\n            if'), file=PMT)
b('C20', 'badchar-upper', ('if word[i] == c:', 'if word[i].lower() == c.lower():'), file=PMT)
b('C20', 'double-start', ('for i in range(3, len(word)):', 'for i in range(4, len(word)):'), file=PMT)
b('C20', 'double-cut', ('yield word[:i-1] + word[i+1:]', 'yield word[:i-1] + word[i:]'), file=PMT)
b('C20', 'double-min', ('if len(word) < 5:', 'if len(word) < 6:'), file=PMT)
b('C20', 'two-first', ('''    for i in range(1, len(word)):
        yield [word[:i]''', '''    for i in range(2, len(word)):
        yield [word[:i]'''), file=PMT)
b('C20', 'two-last', ('''    for i in range(1, len(word)):
        yield [word[:i]''', '''    for i in range(1, len(word) - 1):
        yield [word[:i]'''), file=PMT)
b('C20', 'move-to', ('range(frompos + 3, min(len(word), frompos + MAX_CHAR_DISTANCE + 1))', 'range(frompos + 2, min(len(word), frompos + MAX_CHAR_DISTANCE + 1))'), file=PMT)
b('C20', 'move-back', ('reversed(range(max(0, frompos - MAX_CHAR_DISTANCE + 1), frompos - 1))', 'reversed(range(max(1, frompos - MAX_CHAR_DISTANCE + 1), frompos - 1))'), file=PMT)
b('C20', 'key-first', ("if pos > 0 and layout[pos-1] != '|':", "if pos > 1 and layout[pos-1] != '|':"), file=PMT)
b('C20', 'key-last', ("if pos + 1 < len(layout) and layout[pos+1] != '|':", "if pos + 2 < len(layout) and layout[pos+1] != '|':"), file=PMT)
b('C20', 'key-bar', ("if pos + 1 < len(layout) and layout[pos+1] != '|':", "if pos + 1 < len(layout):"), file=PMT)
b('C20', 'key-once', ('            pos = layout.find(c, pos+1)', '            break'), file=PMT)
b('C20', 'key-upper', ('yield before + c.upper() + after', 'yield before + c.upper() + after.lower()'), file=PMT)
b('C20', 'map-self', ('''                        if other == option:
                            continue
''', ''), file=PMT)
b('C20', 'map-once', ('''                        for variant in mapchars_internal(replaced, pos + len(other)):
                            yield variant
''', ''), file=PMT)
b('C20', 'map-pos', ('mapchars_internal(replaced, pos + len(other))', 'mapchars_internal(replaced, pos + 1)'), file=PMT)
b('C20', 'map-find', ('pos = word.find(option, start)', 'pos = word.find(option)'), file=PMT)
b('C20', 'map-len', ('word[pos+len(option):]', 'word[pos+len(other):]'), file=PMT)
b('C20', 'map-zero', ('if pos != -1:', 'if pos > 0:'), file=PMT)
b('C20', 'rep-first', ('for match in pattern.regexp.finditer(word):', 'for match in [*pattern.regexp.finditer(word)][:1]:'), file=PMT)
b('C20', 'rep-all', ("suggestion = word[:match.start()] + pattern.replacement.replace('_', ' ') + word[match.end():]", "suggestion = pattern.regexp.sub(pattern.replacement.replace('_', ' '), word)"), file=PMT)
b('C20', 'rep-short', ('if len(word) < 2 or not reptable:', 'if len(word) < 3 or not reptable:'), file=PMT)
b('C20', 'rep-under', ("pattern.replacement.replace('_', ' ')", 'pattern.replacement'), file=PMT)
b('C21', 'order-swap', ('''        for suggestion in pmt.swapchar(word):
            yield Suggestion(suggestion, 'swapchar')
        for suggestion in pmt.longswapchar(word):
            yield Suggestion(suggestion, 'longswapchar')
''', '''        for suggestion in pmt.longswapchar(word):
            yield Suggestion(suggestion, 'longswapchar')
        for suggestion in pmt.swapchar(word):
            yield Suggestion(suggestion, 'swapchar')
'''))
b('C21', 'order-map-first', ('''        for suggestion in pmt.mapchars(word, self.aff.MAP):
            yield Suggestion(suggestion, 'mapchars')
''', ''), ('''        for words in pmt.twowords(word):
            yield Suggestion(' '.join(words), 'spaceword')
''', '''        for suggestion in pmt.mapchars(word, self.aff.MAP):
            yield Suggestion(suggestion, 'mapchars')
        for words in pmt.twowords(word):
            yield Suggestion(' '.join(words), 'spaceword')
'''))
b('C21', 'nosplit', ('if not self.aff.NOSPLITSUGS:', 'if True:'))
b('C21', 'dash-try', ("return '-' in self.aff.TRY or 'a' in self.aff.TRY", "return '-' in self.aff.TRY"))
b('C21', 'dash-and', ("return '-' in self.aff.TRY or 'a' in self.aff.TRY", "return '-' in self.aff.TRY and 'a' in self.aff.TRY"))
b('C21', 'spaceword-continue', ('''                if suggestion.kind == 'spaceword':
                    return
''', '''                if suggestion.kind == 'spaceword':
                    break
'''))
b('C21', 'nocompound-kinds', ("if suggestion.kind in ['uppercase', 'replchars', 'mapchars']:", "if suggestion.kind in ['uppercase', 'replchars']:"))
b('C21', 'nocompound-outside', ('''        for idx, variant in enumerate(variants):
            if idx > 0 and is_good_suggestion(variant):
                yield from handle_found(Suggestion(variant, 'case'))
            nocompound = False
''', '''        nocompound = False
        for idx, variant in enumerate(variants):
            if idx > 0 and is_good_suggestion(variant):
                yield from handle_found(Suggestion(variant, 'case'))
'''))
b('C21', 'good-edits', ("GOOD_EDITS = ['spaceword', 'uppercase', 'replchars']", "GOOD_EDITS = ['spaceword', 'uppercase', 'replchars', 'mapchars']"))
b('C21', 'good-edits-last', ('''                yield suggestion
                good_edits_found = good_edits_found or (suggestion.kind in GOOD_EDITS)
                if''', '''                yield suggestion
                good_edits_found = suggestion.kind in GOOD_EDITS
                if'''))
b('C21', 'good-edits-compound', ('''                    yield suggestion
                    good_edits_found = good_edits_found or (suggestion.kind in GOOD_EDITS)
''', '''                    yield suggestion
'''))
b('C21', 'forceucase-more', ('''                    yield from handle_found(Suggestion(capitalized.capitalize(), 'forceucase'))
                    return''', '''                    yield from handle_found(Suggestion(capitalized.capitalize(), 'forceucase'))
                    break'''))
b('C21', 'forceucase-captype', ('if self.aff.FORCEUCASE and captype == CapType.NO:', 'if self.aff.FORCEUCASE:'))
b('C21', 'dashes-any', ("if '-' in word and not any('-' in sug for sug in handled):", "if '-' in word:"))
b('C21', 'dashes-all', ('''                            yield from handle_found(Suggestion(candidate, 'dashes'))
                    break
''', '''                            yield from handle_found(Suggestion(candidate, 'dashes'))
'''))
b('C21', 'dashes-index', ("'-'.join([*chunks[:idx], sug, *chunks[idx+1:]])", "'-'.join([*chunks[:idx], sug, *chunks[idx+2:]])"))
b('C21', 'allow-dash-rep', ("yield MultiWordSuggestion(suggestion, 'replchars', allow_dash=False)", "yield MultiWordSuggestion(suggestion, 'replchars')"))
b('C21', 'dash-suggestion', ('''                        if suggestion.allow_dash:
                            yield suggestion.stringify('-')''', '''                        if suggestion.allow_dash:
                            yield suggestion.stringify('-')
                            break'''))
b('C21', 'key-try', ('pmt.badchar(word, self.aff.TRY)', 'pmt.badchar(word, self.aff.KEY)'))
b('C21', 'uppercase-casing', ("yield Suggestion(self.aff.casing.upper(word), 'uppercase')", "yield Suggestion(word.upper(), 'uppercase')"))
b('C21', 'phone-none', ('''        if not self.aff.PHONE:
            return
''', '''        if not self.aff.PHONE or self.aff.MAXNGRAMSUGS == 0:
            return
'''))
b('C21', 'idx-first', ('if idx > 0 and is_good_suggestion(variant):', 'if idx > 1 and is_good_suggestion(variant):'))
b('C29', 'suffix-condition', ('if suffix.cond_regexp.search(word.stem) and similar_to.endswith(suffix.add)', 'if similar_to.endswith(suffix.add)'), file=NG)
b('C29', 'prefix-condition', ('if prefix.cond_regexp.search(word.stem) and similar_to.startswith(prefix.add)', 'if prefix.cond_regexp.search(similar_to) and similar_to.startswith(prefix.add)'), file=NG)
b('C29', 'cross-or', ('if suffix.crossproduct and prefix.crossproduct', 'if suffix.crossproduct or prefix.crossproduct'), file=NG)
b('C29', 'strip-empty', ('root = word.stem[0:-len(suf.strip)] if suf.strip else word.stem\n', 'root = word.stem[0:-len(suf.strip)]\n'), file=NG)
b('C29', 'strip-add', ('root = word.stem[0:-len(suf.strip)] if suf.strip else word.stem\n', 'root = word.stem[0:-len(suf.add)] if suf.add else word.stem\n'), file=NG)
b('C29', 'prefix-strip', ('''        root = word.stem[len(pref.strip):]
        res''', '''        root = word.stem[len(pref.add):]
        res'''), file=NG)
b('C29', 'cross-strip', ('root = word.stem[len(pref.strip):-len(suf.strip)] if suf.strip else word.stem[len(pref.strip):]', 'root = word.stem[len(pref.strip):-len(suf.strip)] if suf.strip else word.stem'), file=NG)
b('C29', 'alt-real', ('heapq.heappush(guess_scores, (score, variant, root.stem))', 'heapq.heappush(guess_scores, (score, variant, variant))'), file=NG)
b('C29', 'flag-prefix', ('for prefix in all_prefixes.get(flag, [])', 'for prefix in itertools.chain(*all_prefixes.values())'), ('import heapq', 'import heapq\nimport itertools'), file=NG)
b('C30', 'seen-limit', ('if seen and score <= 1000:', 'if seen and score < 1000:'), file=NG)
b('C30', 'found-zero', ('if found > 0 or onlymaxdiff:', 'if found > 1 or onlymaxdiff:'), file=NG)
b('C30', 'onlymaxdiff', ('if found > 0 or onlymaxdiff:', 'if found > 0 and onlymaxdiff:'), file=NG)
b('C30', 'seen-lost', ('''                return
            seen = True
        if not any''', '''                return
        if not any'''), file=NG)
b('C30', 'known-reverse', ('if not any(known_word in value for known_word in known):', 'if not any(value in known_word for known_word in known):'), file=NG)
b('C30', 'known-equal', ('if not any(known_word in value for known_word in known):', 'if value not in known:'), file=NG)
b('C30', 'found-always', ('''        if not any(known_word in value for known_word in known):
            found += 1
            yield value''', '''        found += 1
        if not any(known_word in value for known_word in known):
            yield value'''), file=NG)
b('C30', 'score-100', ('elif score < -100:', 'elif score < 100:'), file=NG)
b('C30', 'pass-onlymaxdiff', ('yield from filter_guesses(guesses2, known=known, onlymaxdiff=onlymaxdiff)', 'yield from filter_guesses(guesses2, known=known)'), file=NG)
b('C30', 'inclusion-case', ('any(previous.lower() in text.lower() for previous in handled)', 'any(previous in text for previous in handled)'))
b('C30', 'inclusion-ngram', ("handle_found(Suggestion(sug, 'phonet'), check_inclusion=True)", "handle_found(Suggestion(sug, 'phonet'))"))
b('C30', 'inclusion-reverse', ('any(previous.lower() in text.lower() for previous in handled)', 'any(text.lower() in previous.lower() for previous in handled)'))
b('C30', 'known-lower', ('known={*(word.lower() for word in handled)},', 'known=handled,'))
b('C31', 'length-diff', ('if abs(len(word.stem) - len(misspelling)) > 4:', 'if len(word.stem) - len(misspelling) > 4:'), file=NG)
b('C31', 'length-diff-ph', ('if abs(len(word.stem) - len(misspelling)) > 3:', 'if abs(len(word.stem) - len(misspelling)) > 4:'), file=PH)
b('C31', 'heap-min', ('heapq.nlargest(MAX_ROOTS, root_scores)', 'heapq.nsmallest(MAX_ROOTS, root_scores)'), file=NG)
b('C31', 'alt-score', ('score = max(score, root_score(misspelling, variant))', 'score = root_score(misspelling, variant)'), file=NG)
b('C31', 'sort-order', ('guesses2 = sorted(guesses2, key=itemgetter(0), reverse=True)', 'guesses2 = sorted(guesses2, reverse=True)'), file=NG)
b('C31', 'sort-ph', ('guesses2 = sorted(guesses2, key=itemgetter(0), reverse=True)', 'guesses2 = sorted(guesses2, key=itemgetter(0))'), file=PH)
b('C31', 'fact', ('fact = (10.0 - maxdiff) / 5.0 if maxdiff >= 0 else 1.0', 'fact = (10.0 - maxdiff) / 5.0 if maxdiff > 0 else 1.0'), file=NG)
b('C31', 'threshold', ('''                score = rough_affix_score(misspelling, variant)
                if score > threshold:''', '''                score = rough_affix_score(misspelling, variant)
                if score >= threshold:'''), file=NG)
b('C31', 'precise-equal', ('if len(word1) == len(word2) and len(word1) == lcs:', 'if len(word1) == lcs:'), file=NG)
b('C31', 'precise-bigrams', ('sm.ngram(2, word2, word1, any_mismatch=True, weighted=True)', 'sm.ngram(2, word1, word2, any_mismatch=True, weighted=True)'), file=NG)
b('C31', 'precise-phonetic', ('questionable_limit = len(word2) * diff_factor', 'questionable_limit = len(word1) * diff_factor'), file=NG)
b('C31', 'precise-limit', ('if bigrams < questionable_limit:', 'if bigrams <= questionable_limit:'), file=NG)
b('C31', 'threshold-range', ('for start_pos in range(1, 4):', 'for start_pos in range(0, 4):'), file=NG)
b('C31', 'threshold-step', ('range(start_pos, len(word), 4)', 'range(start_pos, len(word), 3)'), file=NG)
b('C31', 'ngram-break', ('if ns < 2 and not weighted:', 'if ns < 2:'), file=SM)
b('C31', 'ngram-range', ('for pos in range(l1 - ngram_size + 1):', 'for pos in range(l1 - ngram_size):'), file=SM)
b('C31', 'ngram-edge', ('if pos == 0 or pos + ngram_size == l1:', 'if pos == 0:'), file=SM)
b('C31', 'ngram-penalty', ('penalty = (l2 - l1) - 2\n    elif', 'penalty = abs(l2 - l1) - 2\n    elif'), file=SM)
b('C31', 'leftcommon', ('return min(len(s1), len(s2))', 'return max(len(s1), len(s2))'), file=SM)
b('C31', 'lcs-cond', ('elif c[i-1][j] >= c[i][j-1]:', 'elif c[i-1][j] <= c[i][j-1]:'), file=SM)
b('C31', 'lcs-diag', ('c[i][j] = c[i-1][j-1] + 1', 'c[i][j] = max(c[i-1][j], c[i][j-1]) + 1'), file=SM)
b('C31', 'metaphone-pos', ('pos += max(match.span()[1] - match.span()[0], 1)', 'pos += 1'), file=PH)
b('C31', 'metaphone-break', ('''                pos += max(match.span()[1] - match.span()[0], 1)
                break
''', '''                pos += max(match.span()[1] - match.span()[0], 1)
'''), file=PH)
b('C31', 'nscore', ('if nscore <= 2:', 'if nscore < 2:'), file=PH)
b('C31', 'final', ('2 * sm.lcslen(word1, word2) - abs(len(word1) - len(word2))', '2 * sm.lcslen(word1, word2) - (len(word1) - len(word2))'), file=PH)
b('C31', 'max-roots', ('if len(root_scores) > MAX_ROOTS:', 'if len(root_scores) > 10:'), file=NG)

"""Behaviour-preserving edits: questions asked another way, whole stages moved to methods (the sixth batch)"""
TRIALS = []

L = 'algo/lookup.py'
S = 'algo/suggest.py'
P = 'algo/permutations.py'
CAP = 'algo/capitalization.py'
SM = 'algo/string_metrics.py'
NG = 'algo/ngram_suggest.py'
PH = 'algo/phonet_suggest.py'
DA = 'data/aff.py'
DD = 'data/dic.py'
RA = 'readers/aff.py'
RD = 'readers/dic.py'
RF = 'readers/file_reader.py'


def t(name, *pairs, file=S):
    TRIALS.append((name, file, pairs))


# questions to the dictionary

t('forbidden-homonyms', ('''            return self.aff.FORBIDDENWORD and self.dic.has_flag(word, self.aff.FORBIDDENWORD)
''', '''            flag = self.aff.FORBIDDENWORD
            return bool(flag) and any(flag in entry.flags for entry in self.dic.homonyms(word))
'''))
t('keepcase-homonyms', ('''            if (self.aff.KEEPCASE and self.dic.has_flag(text, self.aff.KEEPCASE) and not
                    (self.aff.CHECKSHARPS and 'ß' in text)):
                pass
            else:
''', '''            keepcase = self.aff.KEEPCASE and any(self.aff.KEEPCASE in w.flags for w in self.dic.homonyms(text))
            if not keepcase or (self.aff.CHECKSHARPS and 'ß' in text):
'''))
t('forceucase-homonyms', ('''            if self.dic.has_flag(compound.parts[-1].text, aff.FORCEUCASE):
                return True
''', '''            last = compound.parts[-1].text
            if any(aff.FORCEUCASE in homonym.flags for homonym in self.dic.homonyms(last)):
                return True
'''), file=L)
t('forbidflag-homonyms', ('''            if aff.COMPOUNDFORBIDFLAG:
                if self.dic.has_flag(left, aff.COMPOUNDFORBIDFLAG):
                    return True
''', '''            if aff.COMPOUNDFORBIDFLAG:
                for homonym in self.dic.homonyms(left):
                    if aff.COMPOUNDFORBIDFLAG in homonym.flags:
                        return True
'''), file=L)
t('all-forbidden', ('''        if self.aff.FORBIDDENWORD and self.dic.has_flag(word, self.aff.FORBIDDENWORD, for_all=True):
            return False
''', '''        forbidden = self.aff.FORBIDDENWORD
        if forbidden:
            entries = self.dic.homonyms(word)
            if entries and all(forbidden in entry.flags for entry in entries):
                return False
'''), file=L)
t('homonym-has-flag', ('''            homonyms = self.dic.homonyms(form.stem)
''', '''            homonyms = self.dic.homonyms(form.stem)
'''), ('''                    any(self.aff.FORBIDDENWORD in homonym.flags for homonym in homonyms)):
                return
''', '''                    self.dic.has_flag(form.stem, self.aff.FORBIDDENWORD)):
                return
'''), file=L)
t('has-flag-matcher', ('''        homonyms = self.homonyms(stem)
        if not homonyms:
            return False
        if for_all:
            return all(flag in homonym.flags for homonym in homonyms)
        return any(flag in homonym.flags for homonym in homonyms)
''', '''        having = [flag in homonym.flags for homonym in self.homonyms(stem)]
        if for_all:
            return bool(having) and all(having)
        return any(having)
'''), file=DD)

# first of

t('good-next', ('''            return any(self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False))
''', '''            forms = self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False)
            return next(iter(forms), None) is not None
'''))
t('correct-next', ('''            return any(self.good_forms(w, capitalization=capitalization, allow_nosuggest=allow_nosuggest))
''', '''            for _ in self.good_forms(w, capitalization=capitalization, allow_nosuggest=allow_nosuggest):
                return True
            return False
'''), file=L)
t('breaks-any', ('''        for parts in self.break_word(word):
            if all(is_correct(part) for part in parts if part):
                return True
        return False
''', '''        return any(all(map(is_correct, filter(None, parts))) for parts in self.break_word(word))
'''), file=L)
t('breaks-inner-loop', ('''        for parts in self.break_word(word):
            if all(is_correct(part) for part in parts if part):
                return True
        return False
''', '''        for parts in self.break_word(word):
            for part in parts:
                if part and not is_correct(part):
                    break
            else:
                return True
        return False
'''), file=L)
t('dash-next', ('''            for idx, chunk in enumerate(chunks):
                if not is_good_suggestion(chunk):
                    for sug in self(chunk):
                        candidate = '-'.join([*chunks[:idx], sug, *chunks[idx+1:]])
                        if self.lookup(candidate, allow_nosuggest=False):
                            yield from handle_found(Suggestion(candidate, 'dashes'))
                    break
''', '''            bad = next((idx for idx, chunk in enumerate(chunks) if not is_good_suggestion(chunk)), None)
            if bad is not None:
                for sug in self(chunks[bad]):
                    candidate = '-'.join([*chunks[:bad], sug, *chunks[bad+1:]])
                    if self.lookup(candidate, allow_nosuggest=False):
                        yield from handle_found(Suggestion(candidate, 'dashes'))
'''))
t('metaphone-next', ('''        match = None
        for rule in table.rules.get(word[pos], []):
            match = rule.match(word, pos)
            if match:
                res += rule.replacement
                pos += max(match.span()[1] - match.span()[0], 1)
                break
        if not match:
            pos += 1
''', '''        for rule in table.rules.get(word[pos], []):
            match = rule.match(word, pos)
            if match:
                res += rule.replacement
                pos += max(match.end() - match.start(), 1)
                break
        else:
            pos += 1
'''), file=PH)
t('conv-max', ('''            matches = sorted(
                [(search, pattern, replacement)
                 for search, pattern, replacement in self.table
                 if search and pattern.match(word, pos)],
                key=lambda r: len(r[0]),
                reverse=True
            )
            if matches:
                search, pattern, replacement = matches[0]
                res += replacement
                pos += len(search)
            else:
                res += word[pos]
                pos += 1
''', '''            best = max(
                (row for row in self.table if row[0] and row[1].match(word, pos)),
                key=lambda row: len(row[0]),
                default=None
            )
            if best is None:
                res += word[pos]
                pos += 1
                continue
            search, _, replacement = best
            res += replacement
            pos += len(search)
'''), file=DA)
t('pattern-loop', ('''            if aff.CHECKCOMPOUNDPATTERN:
                if any(pattern.match(left_paradigm, right_paradigm) for pattern in aff.CHECKCOMPOUNDPATTERN):
                    return True
''', '''            for pattern in aff.CHECKCOMPOUNDPATTERN:
                if pattern.match(left_paradigm, right_paradigm):
                    return True
'''), file=L)
t('rule-next', ('''                if any(r.fullmatch(flag_sets) for r in rules):
                    yield CompoundForm([AffixForm(word_rest, word_rest)])
''', '''                matching = next((r for r in rules if r.fullmatch(flag_sets)), None)
                if matching:
                    yield CompoundForm([AffixForm(word_rest, word_rest)])
'''), file=L)

# slices and tests from the end

t('strip-removesuffix-len', ('''        root = word.stem[0:-len(suf.strip)] if suf.strip else word.stem
''', '''        root = word.stem[:len(word.stem) - len(suf.strip)]
'''), file=NG)
t('cross-end', ('''        root = word.stem[len(pref.strip):-len(suf.strip)] if suf.strip else word.stem[len(pref.strip):]
''', '''        end = -len(suf.strip) if suf.strip else None
        root = word.stem[len(pref.strip):end]
'''), file=NG)
t('swap-ends', ('''        yield word[1] + word[0] + (word[2] if len(word) == 5 else '') + word[-1] + word[-2]
''', '''        middle = word[2] if len(word) == 5 else ''
        last = len(word) - 1
        yield word[1] + word[0] + middle + word[last] + word[last - 1]
'''), file=P)
t('double-shift', ('''    for i in range(3, len(word)):
        if word[i-2] == word[i] and word[i-3] == word[i-1]:
            yield word[:i-1] + word[i+1:]
''', '''    for i in range(len(word) - 3):
        if word[i:i+2] == word[i+2:i+4]:
            yield word[:i+2] + word[i+4:]
'''), file=P)
t('triple-chars', ('''                if len(set(left[-2:] + right[:1])) == 1 or len(set(left[-1:] + right[:2])) == 1:
                    return True
''', '''                junctions = (left[-2:] + right[:1], left[-1:] + right[:2])
                if any(len(set(letters)) == 1 for letters in junctions):
                    return True
'''), file=L)
t('first-upper-slice', ('''        if word[:1].isupper():
            return Type.INIT if word[1:].islower() else Type.HUHINIT
        return Type.HUH
''', '''        if not word or not word[0].isupper():
            return Type.HUH
        if word[1:].islower():
            return Type.INIT
        return Type.HUHINIT
'''), file=CAP)

# stages to methods

t('stage-ngram', ('''        ngrams_seen = 0
        for sug in self.ngram_suggestions(word, handled=handled):
            for res in handle_found(Suggestion(sug, 'ngram'), check_inclusion=True):
                ngrams_seen += 1
                yield res
            if ngrams_seen >= self.aff.MAXNGRAMSUGS:
                break
        phonet_seen = 0
        for sug in self.phonet_suggestions(word):
            for res in handle_found(Suggestion(sug, 'phonet'), check_inclusion=True):
                phonet_seen += 1
                yield res
            if phonet_seen >= MAXPHONSUGS:
                break
''', '''        yield from self.similar(self.ngram_suggestions(word, handled=handled), 'ngram',
                                handle_found, self.aff.MAXNGRAMSUGS)
        yield from self.similar(self.phonet_suggestions(word), 'phonet', handle_found, MAXPHONSUGS)

    def similar(self, texts, kind, handle_found, limit):
        seen = 0
        for text in texts:
            for res in handle_found(Suggestion(text, kind), check_inclusion=True):
                seen += 1
                yield res
            if seen >= limit:
                return
'''))
t('stage-dashes', ('''        if '-' in word and not any('-' in sug for sug in handled):
            chunks = word.split('-')
            for idx, chunk in enumerate(chunks):
                if not is_good_suggestion(chunk):
                    for sug in self(chunk):
                        candidate = '-'.join([*chunks[:idx], sug, *chunks[idx+1:]])
                        if self.lookup(candidate, allow_nosuggest=False):
                            yield from handle_found(Suggestion(candidate, 'dashes'))
                    break
''', '''        def dashed_candidates():
            chunks = word.split('-')
            for idx, chunk in enumerate(chunks):
                if is_good_suggestion(chunk):
                    continue
                for sug in self(chunk):
                    yield '-'.join(chunks[:idx] + [sug] + chunks[idx + 1:])
                return

        if '-' in word and all('-' not in sug for sug in handled):
            for candidate in dashed_candidates():
                if self.lookup(candidate, allow_nosuggest=False):
                    yield from handle_found(Suggestion(candidate, 'dashes'))
'''))
t('stage-simple-edits', ('''        for suggestion in pmt.swapchar(word):
            yield Suggestion(suggestion, 'swapchar')
        for suggestion in pmt.longswapchar(word):
            yield Suggestion(suggestion, 'longswapchar')
''', '''        for kind, function in (('swapchar', pmt.swapchar), ('longswapchar', pmt.longswapchar)):
            for suggestion in function(word):
                yield Suggestion(suggestion, kind)
'''))
t('stage-case', ('''            if idx > 0 and is_good_suggestion(variant):
                yield from handle_found(Suggestion(variant, 'case'))
            nocompound = False
''', '''            nocompound = False
            is_original = idx == 0
            if not is_original:
                if is_good_suggestion(variant):
                    yield from handle_found(Suggestion(variant, 'case'))
'''))
t('stage-compounds-limit', ('''            if not nocompound:
                for suggestion in self.edit_suggestions(variant, handle_found,
                                                        limit=self.aff.MAXCPDSUGS, compounds=True):
                    yield suggestion
                    good_edits_found = good_edits_found or (suggestion.kind in GOOD_EDITS)
''', '''            if nocompound:
                continue
            compound_edits = self.edit_suggestions(variant, handle_found, compounds=True, limit=self.aff.MAXCPDSUGS)
            for suggestion in compound_edits:
                if suggestion.kind in GOOD_EDITS:
                    good_edits_found = True
                yield suggestion
'''))
t('handled-clean', ('''            if is_forbidden(text):
                return
            text = self.aff.OCONV(text) if self.aff.OCONV else text
            if text in handled:
                return
            if check_inclusion and any(previous.lower() in text.lower() for previous in handled):
                return
            handled.add(text)
            yield suggestion.replace(text=text)
''', '''            if not is_forbidden(text):
                if self.aff.OCONV:
                    text = self.aff.OCONV(text)
                lowered = text.lower()
                repeated = text in handled or \\
                    check_inclusion and any(previous.lower() in lowered for previous in handled)
                if not repeated:
                    handled.add(text)
                    yield suggestion.replace(text=text)
'''))
t('good-edit-kinds', ('''            if compounds:
                return any(self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False, affix_forms=False))
            return any(self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False, compound_forms=False))
''', '''            return any(self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False,
                                              affix_forms=not compounds, compound_forms=compounds))
'''))
t('edit-islice-count', ('''        count = 0
        for suggestion in filter_suggestions(self.edits(word)):
            for res in handle_found(suggestion):
                yield res
                count += 1
                if count >= limit:
                    return
''', '''        left = limit
        for suggestion in filter_suggestions(self.edits(word)):
            for res in handle_found(suggestion):
                yield res
                left -= 1
                if left <= 0:
                    return
'''))

# lookup

t('affix-candidates', ('''            for homonym in homonyms:
                candidate = form.replace(in_dictionary=homonym)
                if is_good_form(candidate):
                    found = True
                    yield candidate
            if compoundpos''', '''            for candidate in candidates(form, homonyms):
                found = True
                yield candidate
            if compoundpos'''), ('''        for form in self.produce_affix_forms(word, compoundpos=compoundpos,
''', '''        def candidates(form, words):
            for entry in words:
                candidate = form.replace(in_dictionary=entry)
                if is_good_form(candidate):
                    yield candidate

        for form in self.produce_affix_forms(word, compoundpos=compoundpos,
'''), ('''                for homonym in self.dic.homonyms(form.stem, ignorecase=True):
                    candidate = form.replace(in_dictionary=homonym)
                    if is_good_form(candidate):
                        yield candidate
''', '''                yield from candidates(form, self.dic.homonyms(form.stem, ignorecase=True))
'''), file=L)
t('pos-flag-map', ('''        if compoundpos == CompoundPos.BEGIN:
            return aff.COMPOUNDBEGIN in all_flags
        if compoundpos == CompoundPos.END:
            return aff.COMPOUNDEND in all_flags
        if compoundpos == CompoundPos.MIDDLE:
            return aff.COMPOUNDMIDDLE in all_flags
        return False
''', '''        required = {
            CompoundPos.BEGIN: aff.COMPOUNDBEGIN,
            CompoundPos.MIDDLE: aff.COMPOUNDMIDDLE,
            CompoundPos.END: aff.COMPOUNDEND
        }
        return required[compoundpos] in all_flags
'''), file=L)
t('good-suffix-sets', ('''                all(f in suffix.flags for f in required_flags) and
                all(f not in suffix.flags for f in forbidden_flags)
            )
''', '''                suffix.flags.issuperset(required_flags) and
                suffix.flags.isdisjoint(forbidden_flags)
            )
'''), file=L)
t('good-prefix-loops', ('''            return all(f in prefix.flags for f in required_flags) and \\
                   all(f not in prefix.flags for f in forbidden_flags)
''', '''            for flag in required_flags:
                if flag not in prefix.flags:
                    return False
            for flag in forbidden_flags:
                if flag in prefix.flags:
                    return False
            return True
'''), file=L)
t('bad-compound-pairs', ('''        for idx, left_paradigm in enumerate(compound.parts[:-1]):
            left = left_paradigm.text
            right_paradigm = compound.parts[idx+1]
            right = right_paradigm.text
''', '''        for idx, (left_paradigm, right_paradigm) in enumerate(zip(compound.parts, compound.parts[1:])):
            left, right = left_paradigm.text, right_paradigm.text
'''), file=L)
t('compounds-or', ('''        if self.aff.COMPOUNDBEGIN or self.aff.COMPOUNDFLAG:
            for compound in self.compounds_by_flags(word, captype=captype, allow_nosuggest=allow_nosuggest):
                if not self.is_bad_compound(compound, captype):
                    yield compound
        if self.aff.COMPOUNDRULE:
            for compound in self.compounds_by_rules(word, allow_nosuggest=allow_nosuggest):
                if not self.is_bad_compound(compound, captype):
                    yield compound
''', '''        def good(compounds):
            return (compound for compound in compounds if not self.is_bad_compound(compound, captype))

        if self.aff.COMPOUNDFLAG or self.aff.COMPOUNDBEGIN:
            yield from good(self.compounds_by_flags(word, captype=captype, allow_nosuggest=allow_nosuggest))
        if self.aff.COMPOUNDRULE:
            yield from good(self.compounds_by_rules(word, allow_nosuggest=allow_nosuggest))
'''), file=L)
t('pieces-helper', ('''        for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
            beg = word_rest[0:pos]
            for homonym in good_homonyms(beg):
''', '''        last = len(word_rest) - aff.COMPOUNDMIN
        pos = aff.COMPOUNDMIN - 1
        while pos < last:
            pos += 1
            beg = word_rest[:pos]
            for homonym in good_homonyms(beg):
'''), file=L)
t('sharp-flat', ('''                    if (self.aff.CHECKSHARPS and self.aff.KEEPCASE and  # pylint: disable=too-many-boolean-expressions
                            'ß' in form.in_dictionary.stem and self.aff.KEEPCASE in form.flags() and   # type: ignore
                            captype == CapType.ALL and 'ß' in word):
                        continue
                    yield form
''', '''                    if not (captype == CapType.ALL and 'ß' in word and is_kept_sharp(form)):
                        yield form
'''), ('''        for variant in variants:
            if affix_forms:
''', '''        def is_kept_sharp(form):
            keepcase = self.aff.KEEPCASE
            return self.aff.CHECKSHARPS and keepcase and \\
                keepcase in form.flags() and 'ß' in form.in_dictionary.stem

        for variant in variants:
            if affix_forms:
'''), file=L)

# ngram, phonetic

t('root-scores-max', ('''        score = root_score(misspelling, word.stem)
        if word.alt_spellings:
            for variant in word.alt_spellings:
                score = max(score, root_score(misspelling, variant))
        if len(root_scores)''', '''        score = max(root_score(misspelling, text) for text in (word.stem, *word.alt_spellings))
        if len(root_scores)'''), file=NG)
t('phonet-helper', ('''        nscore = ng.root_score(misspelling, word.stem)
        if word.alt_spellings:
            for variant in word.alt_spellings:
                nscore = max(nscore, ng.root_score(misspelling, variant))
        if nscore <= 2:
            continue
''', '''        if best_score(misspelling, word) <= 2:
            continue
'''), ('''def final_score(''', '''def best_score(misspelling: str, word: dic.Word) -> float:
    scores = [ng.root_score(misspelling, word.stem)]
    scores.extend(ng.root_score(misspelling, variant) for variant in word.alt_spellings or ())
    return max(scores)


def final_score('''), file=PH)
t('phonet-yield-from', ('''    guesses2 = [(score + final_score(misspelling, word.lower()), word) for (score, word) in guesses]
    guesses2 = sorted(guesses2, key=itemgetter(0), reverse=True)
    for (_, sug) in guesses2:
        yield sug
''', '''    rescored = [(score + final_score(misspelling, word.lower()), word) for (score, word) in guesses]
    rescored.sort(key=lambda pair: pair[0], reverse=True)
    yield from (word for _, word in rescored)
'''), file=PH)
t('filter-flags', ('''        if seen and score <= 1000:
            return
        if score > 1000:
            seen = True
        elif score < -100:
            if found > 0 or onlymaxdiff:
                return
            seen = True
''', '''        if score > 1000:
            seen = True
        else:
            if seen:
                return
            if score < -100:
                if found or onlymaxdiff:
                    return
                seen = True
'''), file=NG)
t('affixes-helper', ('''    suffixes = [
        suffix
        for flag in word.flags
        for suffix in all_suffixes.get(flag, [])
        if suffix.cond_regexp.search(word.stem) and similar_to.endswith(suffix.add)
    ]
    prefixes = [
        prefix
        for flag in word.flags
        for prefix in all_prefixes.get(flag, [])
        if prefix.cond_regexp.search(word.stem) and similar_to.startswith(prefix.add)
    ]
''', '''    def suitable(table, fits):
        return [
            affix
            for flag in word.flags
            for affix in table.get(flag, [])
            if fits(affix.add) and affix.cond_regexp.search(word.stem)
        ]

    suffixes = suitable(all_suffixes, similar_to.endswith)
    prefixes = suitable(all_prefixes, similar_to.startswith)
'''), file=NG)

# permutations

t('badchar-enumerate', ('''        for i in reversed(range(len(word))):
            if word[i] == c:
                continue
            yield word[:i] + c + word[i+1:]
''', '''        for i, old in reversed(list(enumerate(word))):
            if old != c:
                yield word[:i] + c + word[i+1:]
'''), file=P)
t('key-neighbours', ('''            if pos > 0 and layout[pos-1] != '|':
                yield before + layout[pos-1] + after
            if pos + 1 < len(layout) and layout[pos+1] != '|':
                yield before + layout[pos+1] + after
''', '''            for near in (pos - 1, pos + 1):
                if 0 <= near < len(layout) and layout[near] != '|':
                    yield before + layout[near] + after
'''), file=P)
t('twowords-comp', ('''    for i in range(1, len(word)):
        yield [word[:i], word[i:]]
''', '''    yield from ([word[:i], word[i:]] for i in range(1, len(word)))
'''), file=P)
t('lcs-tail', ('''            elif c[i-1][j] >= c[i][j-1]:
                c[i][j] = c[i-1][j]
            else:
                c[i][j] = c[i][j-1]
''', '''            else:
                c[i][j] = max(c[i-1][j], c[i][j-1])
'''), file=SM)
t('left-common-while', ('''    for (i, (c1, c2)) in enumerate(zip(s1, s2)):
        if c1 != c2:
            return i
    return min(len(s1), len(s2))
''', '''    length = 0
    for c1, c2 in zip(s1, s2):
        if c1 != c2:
            break
        length += 1
    return length
'''), file=SM)

# letter case

t('variants-map', ('''        captype = self.guess(word)
        if captype == Type.NO:
            result = [word]
        elif captype == Type.INIT:
            result = [word, *self.lower(word)]
        elif captype == Type.HUHINIT:
            result = [word, *self.lowerfirst(word)]
        elif captype == Type.HUH:
            result = [word]
        elif captype == Type.ALL:
            result = [word, *self.lower(word), *self.capitalize(word)]
        return (captype, result)
''', '''        captype = self.guess(word)
        result = [word]
        if captype == Type.HUHINIT:
            result.extend(self.lowerfirst(word))
        elif captype in (Type.INIT, Type.ALL):
            result.extend(self.lower(word))
            if captype == Type.ALL:
                result.extend(self.capitalize(word))
        return captype, result
'''), file=CAP)
t('corrections-sets', ('''        if captype == Type.NO:
            result = [word]
        elif captype == Type.INIT:
            result = [word, *self.lower(word)]
        elif captype == Type.HUHINIT:
            result = [word, *self.lowerfirst(word), *self.lower(word), *self.capitalize(word)]
        elif captype == Type.HUH:
            result = [word, *self.lower(word)]
        elif captype == Type.ALL:
            result = [word, *self.lower(word), *self.capitalize(word)]
        return (captype, result)
''', '''        result = [word]
        if captype == Type.HUHINIT:
            result += self.lowerfirst(word)
        if captype != Type.NO:
            result += self.lower(word)
        if captype in (Type.HUHINIT, Type.ALL):
            result += self.capitalize(word)
        return (captype, result)
'''), file=CAP)
t('coerce-order', ('''        if cap in (Type.INIT, Type.HUHINIT):
            return self.upper(word[:1]) + word[1:]
        if cap == Type.ALL:
            return self.upper(word)
        return word
''', '''        if cap == Type.ALL:
            return self.upper(word)
        if cap not in (Type.INIT, Type.HUHINIT):
            return word
        first, rest = word[:1], word[1:]
        return self.upper(first) + rest
'''), file=CAP)

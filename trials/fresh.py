"""Behaviour-preserving edits of all kinds of files (the second batch)"""
TRIALS = []

L = 'algo/lookup.py'
S = 'algo/suggest.py'
P = 'algo/permutations.py'
CAP = 'algo/capitalization.py'
SM = 'algo/string_metrics.py'
NG = 'algo/ngram_suggest.py'
PH = 'algo/phonet_suggest.py'
TRIE = 'algo/trie.py'
DA = 'data/aff.py'
DD = 'data/dic.py'
RA = 'readers/aff.py'
RD = 'readers/dic.py'
RF = 'readers/file_reader.py'
D = 'dictionary.py'


def t(name, *pairs, file=L):
    TRIALS.append((name, file, pairs))


t('variants-match', ('''        if captype == Type.NO:
            result = [word]
        elif captype == Type.INIT:
            result = [word, *self.lower(word)]
        elif captype == Type.HUHINIT:
            result = [word, *self.lowerfirst(word)]
        elif captype == Type.HUH:
            result = [word]
        elif captype == Type.ALL:
            result = [word, *self.lower(word), *self.capitalize(word)]
        return (captype, result)
    def corrections''', '''        match captype:
            case Type.INIT:
                result = [word, *self.lower(word)]
            case Type.HUHINIT:
                result = [word, *self.lowerfirst(word)]
            case Type.ALL:
                result = [word, *self.lower(word), *self.capitalize(word)]
            case _:
                result = [word]
        return (captype, result)
    def corrections'''), file=CAP)
t('variants-append', ('''        if captype == Type.NO:
            result = [word]
        elif captype == Type.INIT:
            result = [word, *self.lower(word)]
        elif captype == Type.HUHINIT:
            result = [word, *self.lowerfirst(word)]
        elif captype == Type.HUH:
            result = [word]
        elif captype == Type.ALL:
            result = [word, *self.lower(word), *self.capitalize(word)]
        return (captype, result)
    def corrections''', '''        result = [word]
        if captype in (Type.INIT, Type.ALL):
            result.extend(self.lower(word))
        if captype is Type.ALL:
            result.extend(self.capitalize(word))
        elif captype is Type.HUHINIT:
            result += self.lowerfirst(word)
        return captype, result
    def corrections'''), file=CAP)
t('guess-nested', ('''        if word[:1].isupper():
            return Type.INIT if word[1:].islower() else Type.HUHINIT
        return Type.HUH
''', '''        first, rest = word[:1], word[1:]
        if not first.isupper():
            return Type.HUH
        if rest.islower():
            return Type.INIT
        return Type.HUHINIT
'''), file=CAP)
t('capitalize-guard', ('''        if len(word) == 1:
            return iter([self.upper(word[0])])
        else:
            return (self.upper(word[0]) + lower for lower in self.lower(word[1:]))
''', '''        first = word[0]
        rest = word[1:]
        if not rest:
            return iter([self.upper(first)])
        return (self.upper(first) + lower for lower in self.lower(rest))
'''), file=CAP)
t('sharp-loop', ('''            return [variant for lowered in result for variant in [*sharp_s_variants(lowered), lowered]]
        return result
''', '''            variants = []
            for lowered in result:
                variants.extend(sharp_s_variants(lowered))
                variants.append(lowered)
            return variants
        return result
'''), file=CAP)
t('coerce-first', ('''        if cap in (Type.INIT, Type.HUHINIT):
            return self.upper(word[:1]) + word[1:]
        if cap == Type.ALL:
            return self.upper(word)
        return word
''', '''        if cap == Type.ALL:
            return self.upper(word)
        if cap == Type.INIT or cap == Type.HUHINIT:
            first, rest = word[:1], word[1:]
            return f'{self.upper(first)}{rest}'
        return word
'''), file=CAP)
t('commonchars-loop', ('''    return sum(c1 == c2 for c1, c2 in zip(s1, s2))
''', '''    count = 0
    for pos in range(min(len(s1), len(s2))):
        if s1[pos] == s2[pos]:
            count += 1
    return count
'''), file=SM)
t('leftcommon-while', ('''    for (i, (c1, c2)) in enumerate(zip(s1, s2)):
        if c1 != c2:
            return i
    return min(len(s1), len(s2))
''', '''    limit = min(len(s1), len(s2))
    i = 0
    while i < limit and s1[i] == s2[i]:
        i += 1
    return i
'''), file=SM)
t('ngram-flags', ('''    if longer_worse:
        penalty = (l2 - l1) - 2
    elif any_mismatch:
        penalty = abs(l2 - l1) - 2
    else:
        penalty = 0
    return nscore - penalty if penalty > 0 else nscore
''', '''    penalty = 0
    if longer_worse:
        penalty = max(0, l2 - l1 - 2)
    elif any_mismatch:
        penalty = max(0, abs(l2 - l1) - 2)
    return nscore - penalty
'''), file=SM)
t('ngram-count', ('''        ns = 0
        for pos in range(l1 - ngram_size + 1):
            if s1[pos:pos+ngram_size] in s2:
                ns += 1
            elif weighted:
                ns -= 1
                if pos == 0 or pos + ngram_size == l1:
                    ns -= 1
''', '''        ns = 0
        last = l1 - ngram_size
        for pos in range(last + 1):
            end = pos + ngram_size
            if s1[pos:end] in s2:
                ns += 1
            elif weighted:
                ns -= 2 if pos in (0, last) else 1
'''), file=SM)
t('metaphone-next', ('''        match = None
        for rule in table.rules.get(word[pos], []):
            match = rule.match(word, pos)
            if match:
                res += rule.replacement
                pos += max(match.span()[1] - match.span()[0], 1)
                break
        if not match:
            pos += 1
''', '''        step = 1
        for rule in table.rules.get(word[pos], ()):
            match = rule.match(word, pos)
            if match:
                res += rule.replacement
                step = max(match.end() - match.start(), 1)
                break
        pos += step
'''), file=PH)
t('phonet-generator', ('''    for (_, sug) in guesses2:
        yield sug
''', '''    yield from (sug for _, sug in guesses2)
'''), file=PH)
t('trie-get', ('''        if not path or path[0] not in cur.children:
            return
        yield from self.traverse(cur.children[path[0]], path[1:], [*traversed, path[0]])
''', '''        if not path:
            return
        first, rest = path[0], path[1:]
        if first in cur.children:
            child = cur.children[first]
            yield from self.traverse(child, rest, traversed + [first])
'''), file=TRIE)
t('trie-walk', ('''        for _, leaf in self.traverse(self.root, path):
            yield from leaf.payloads
''', '''        cur = self.root
        yield from cur.payloads
        for letter in path:
            if letter not in cur.children:
                break
            cur = cur.children[letter]
            yield from cur.payloads
'''), file=TRIE)
t('trie-slots', ('''class Leaf:     # pylint: disable=too-few-public-methods,missing-class-docstring
''', '''class Leaf:
    __slots__ = ('payloads', 'children')
'''), file=TRIE)
t('break-nested', ('''                for breaking in self.break_word(rest, depth=depth+1):
                    yield [start, *breaking]
''', '''                yield from ([start] + breaking for breaking in self.break_word(rest, depth + 1))
'''))
t('break-guard', ('''        if depth > 10:
            return
        yield [text]
        for pat in self.aff.BREAK:
            for m in pat.regexp.finditer(text):
                start = text[:m.start(1)]
                rest = text[m.end(1):]
''', '''        if not depth <= 10:
            return
        yield [text]
        matches = (m for pat in self.aff.BREAK for m in pat.regexp.finditer(text))
        for m in matches:
            if True:
                begin, end = m.span(1)
                start, rest = text[:begin], text[end:]
'''))
t('lookup-logging', ('''        for parts in self.break_word(word):
            if all(is_correct(part) for part in parts if part):
                return True
''', '''        for parts in self.break_word(word):
            LOGGER.debug('trying %s', parts)
            if all(is_correct(part) for part in parts if part):
                return True
'''), ('''class Lookup:
    def __init__''', '''LOGGER = logging.getLogger(__name__)
class Lookup:
    def __init__'''), ('import dataclasses\n', 'import dataclasses\nimport logging\n'))
t('good-elements', ('''        if capitalization:
            captype, variants = self.aff.casing.variants(word)
        else:
            captype = self.aff.casing.guess(word)
            variants = [word]
''', '''        casing = self.aff.casing
        captype, variants = casing.variants(word) if capitalization else (casing.guess(word), [word])
'''))
t('is-good-locals', ('''        if not compoundpos:
            return aff.ONLYINCOMPOUND not in all_flags
        if aff.COMPOUNDFLAG in all_flags:
            return True
        if compoundpos == CompoundPos.BEGIN:
            return aff.COMPOUNDBEGIN in all_flags
        if compoundpos == CompoundPos.END:
            return aff.COMPOUNDEND in all_flags
        if compoundpos == CompoundPos.MIDDLE:
            return aff.COMPOUNDMIDDLE in all_flags
        return False
''', '''        if compoundpos is None:
            return aff.ONLYINCOMPOUND not in all_flags
        position_flag = {
            CompoundPos.BEGIN: aff.COMPOUNDBEGIN,
            CompoundPos.MIDDLE: aff.COMPOUNDMIDDLE,
            CompoundPos.END: aff.COMPOUNDEND,
        }[compoundpos]
        return aff.COMPOUNDFLAG in all_flags or position_flag in all_flags
'''))
t('is-good-circumfix', ('''            suffix_has = form.suffix and aff.CIRCUMFIX in form.suffix.flags
            prefix_has = form.prefix and aff.CIRCUMFIX in form.prefix.flags
            if bool(prefix_has) != bool(suffix_has):
                return False
''', '''            marked = [bool(a) and aff.CIRCUMFIX in a.flags for a in (form.prefix, form.suffix)]
            if marked[0] != marked[1]:
                return False
'''))
t('rules-parts', ('''                parts = [*prev_parts, homonym]
                flag_sets = [w.flags for w in parts]
                compoundrules = [r for r in rules if r.partial_match(flag_sets)]
                if compoundrules:
                    for rest in self.compounds_by_rules(word_rest[pos:], rules=compoundrules, prev_parts=parts,
                                                        allow_nosuggest=allow_nosuggest):
                        yield CompoundForm([AffixForm(beg, beg), *rest.parts])
''', '''                parts = prev_parts + [homonym]
                flag_sets = [part.flags for part in parts]
                compoundrules = [*filter(lambda r: r.partial_match(flag_sets), rules)]
                if not compoundrules:
                    continue
                head = AffixForm(beg, beg)
                tails = self.compounds_by_rules(word_rest[pos:], parts, compoundrules, allow_nosuggest)
                yield from (CompoundForm([head] + tail.parts) for tail in tails)
'''))
t('flags-inner', ('''            for form in self.affix_forms(beg, captype=captype, compoundpos=compoundpos,
                                         prefix_flags=prefix_flags,
                                         suffix_flags=permitflags,
                                         forbidden_flags=forbidden_flags,
                                         allow_nosuggest=allow_nosuggest):
                for partial in self.compounds_by_flags(rest, captype=captype, depth=depth+1,
                                                       allow_nosuggest=allow_nosuggest):
                    yield CompoundForm([form, *partial.parts])
            if aff.SIMPLIFIEDTRIPLE and beg[-1] == rest[0]:
                for form in self.affix_forms(beg + beg[-1], captype=captype, compoundpos=compoundpos,
                                             prefix_flags=prefix_flags,
                                             suffix_flags=permitflags,
                                             forbidden_flags=forbidden_flags,
                                             allow_nosuggest=allow_nosuggest):
                    for partial in self.compounds_by_flags(rest, captype=captype, depth=depth+1,
                                                           allow_nosuggest=allow_nosuggest):
                        yield CompoundForm([form.replace(text=beg), *partial.parts])
''', '''            def heads(text):
                return self.affix_forms(text, captype=captype, compoundpos=compoundpos,
                                        prefix_flags=prefix_flags,
                                        suffix_flags=permitflags,
                                        forbidden_flags=forbidden_flags,
                                        allow_nosuggest=allow_nosuggest)
            def tails():
                return self.compounds_by_flags(rest, captype=captype, depth=depth + 1, allow_nosuggest=allow_nosuggest)
            for form in heads(beg):
                for partial in tails():
                    yield CompoundForm([form, *partial.parts])
            if aff.SIMPLIFIEDTRIPLE and beg[-1] == rest[0]:
                for form in heads(beg + beg[-1]):
                    for partial in tails():
                        yield CompoundForm([form.replace(text=beg), *partial.parts])
'''))
t('bad-early', ('''        if aff.FORCEUCASE and captype not in [CapType.ALL, CapType.INIT]:
            if self.dic.has_flag(compound.parts[-1].text, aff.FORCEUCASE):
                return True
''', '''        *_, last = compound.parts
        if aff.FORCEUCASE and captype != CapType.ALL and captype != CapType.INIT and \\
                self.dic.has_flag(last.text, aff.FORCEUCASE):
            return True
'''))
t('bad-case-letters', ('''                right_c = right[0]
                left_c = left[-1]
                if (right_c == right_c.upper() or left_c == left_c.upper()) and right_c != '-' and left_c != '-':
                    return True
''', '''                border = [left[-1], right[0]]
                if '-' not in border and any(letter == letter.upper() for letter in border):
                    return True
'''))
t('bad-pairs', ('''        for idx, left_paradigm in enumerate(compound.parts[:-1]):
            left = left_paradigm.text
            right_paradigm = compound.parts[idx+1]
            right = right_paradigm.text
''', '''        borders = list(zip(compound.parts, compound.parts[1:]))
        for idx, (left_paradigm, right_paradigm) in enumerate(borders):
            left, right = left_paradigm.text, right_paradigm.text
'''), ('''                if left == right and idx == len(compound.parts) - 2:
''', '''                if left == right and idx == len(borders) - 1:
'''))
t('affix-flags-union', ('''        flags = self.in_dictionary.flags if self.in_dictionary else set()
        if self.prefix:
            flags = flags.union(self.prefix.flags)
        if self.suffix:
            flags = flags.union(self.suffix.flags)
        return flags
''', '''        sources = [self.in_dictionary, self.prefix, self.suffix]
        return set().union(*(source.flags for source in sources if source))
'''))
t('desuffix-stem-helper', ('''            stem = suffix.replace_regexp.sub(lambda _: suffix.strip, word)
            if not suffix.cond_regexp.search(stem):
                continue
            yield AffixForm(word, stem, suffix=suffix)
''', '''            stem = self._without(suffix, word)
            if stem is None:
                continue
            yield AffixForm(word, stem, suffix=suffix)
'''), ('''    def deprefix(self, word: str,
''', '''    @staticmethod
    def _without(affix, word):
        stem = affix.replace_regexp.sub(lambda _: affix.strip, word)
        return stem if affix.cond_regexp.search(stem) else None
    def deprefix(self, word: str,
'''), ('''            stem = prefix.replace_regexp.sub(lambda _: prefix.strip, word)
            if not prefix.cond_regexp.search(stem):
                continue
            yield AffixForm(word, stem, prefix=prefix)
''', '''            stem = self._without(prefix, word)
            if stem is None:
                continue
            yield AffixForm(word, stem, prefix=prefix)
'''))
t('desuffix-args', ('''                for form2 in self.desuffix(stem,
                                           required_flags=[suffix.flag, *required_flags],
                                           forbidden_flags=forbidden_flags,
                                           nested=True,
                                           crossproduct=crossproduct):
                    yield form2.replace(suffix2=suffix, text=word)
''', '''                inner = self.desuffix(stem, [suffix.flag] + required_flags, forbidden_flags, True, crossproduct)
                for form in inner:
                    yield form.replace(text=word, suffix2=suffix)
'''))
t('number-rename', ('''        if NUMBER_REGEXP.fullmatch(word):
            return True
''', '''        is_number = NUMBER_REGEXP.fullmatch(word) is not None
        if is_number:
            return True
'''))
t('call-generator', ('''        yield from (suggestion.text for suggestion in self.suggestions(word))
''', '''        for found in self.suggestions(word):
            yield found.text
'''), file=S)
t('handled-dict', ('''            if text in handled:
                return
            if check_inclusion and any(previous.lower() in text.lower() for previous in handled):
                return
            handled.add(text)
            yield suggestion.replace(text=text)
''', '''            lowered = text.lower()
            included = check_inclusion and any(previous.lower() in lowered for previous in handled)
            if text not in handled and not included:
                handled.add(text)
                yield suggestion.replace(text=text)
'''), file=S)
t('edits-pairs', ('''        for suggestion in pmt.swapchar(word):
            yield Suggestion(suggestion, 'swapchar')
        for suggestion in pmt.longswapchar(word):
            yield Suggestion(suggestion, 'longswapchar')
''', '''        for edit in (pmt.swapchar, pmt.longswapchar):
            for text in edit(word):
                yield Suggestion(text, edit.__name__)
'''), file=S)
t('edits-words', ('''        for words in pmt.twowords(word):
            yield Suggestion(' '.join(words), 'spaceword')
            if self.use_dash():
                yield Suggestion('-'.join(words), 'spaceword')
''', '''        separators = [' ', '-'] if self.use_dash() else [' ']
        for words in pmt.twowords(word):
            for separator in separators:
                yield Suggestion(separator.join(words), 'spaceword')
'''), file=S)
t('main-variants', ('''        for idx, variant in enumerate(variants):
            if idx > 0 and is_good_suggestion(variant):
                yield from handle_found(Suggestion(variant, 'case'))
''', '''        for idx in range(len(variants)):
            variant = variants[idx]
            if idx and is_good_suggestion(variant):
                yield from handle_found(Suggestion(variant, 'case'))
'''), file=S)
t('ngram-seen', ('''        ngrams_seen = 0
        for sug in self.ngram_suggestions(word, handled=handled):
            for res in handle_found(Suggestion(sug, 'ngram'), check_inclusion=True):
                ngrams_seen += 1
                yield res
            if ngrams_seen >= self.aff.MAXNGRAMSUGS:
                break
        phonet_seen = 0
        for sug in self.phonet_suggestions(word):
            for res in handle_found(Suggestion(sug, 'phonet'), check_inclusion=True):
                phonet_seen += 1
                yield res
            if phonet_seen >= MAXPHONSUGS:
                break
''', '''        def limited(found, kind, limit):
            seen = 0
            for sug in found:
                for res in handle_found(Suggestion(sug, kind), check_inclusion=True):
                    seen += 1
                    yield res
                if seen >= limit:
                    return
        yield from limited(self.ngram_suggestions(word, handled=handled), 'ngram', self.aff.MAXNGRAMSUGS)
        yield from limited(self.phonet_suggestions(word), 'phonet', MAXPHONSUGS)
'''), file=S)
t('init-attr', ('''        bad_flags = {*filter(None, [self.aff.FORBIDDENWORD, self.aff.NOSUGGEST, self.aff.ONLYINCOMPOUND])}
        self.words_for_ngram = [word for word in self.dic.words if not bad_flags.intersection(word.flags)]
''', '''        bad_flags = frozenset(flag for flag in (aff.FORBIDDENWORD, aff.NOSUGGEST, aff.ONLYINCOMPOUND) if flag)
        self.words_for_ngram = [word for word in dic.words if bad_flags.isdisjoint(word.flags)]
'''), file=S)
t('swap-list', ('''    for i in range(len(word) - 1):
        yield word[:i] + word[i+1] + word[i] + word[i+2:]
''', '''    for i, (first, second) in enumerate(zip(word, word[1:])):
        yield word[:i] + second + first + word[i + 2:]
'''), file=P)
t('key-finditer', ('''        pos = layout.find(c)
        while pos != -1:
            if pos > 0 and layout[pos-1] != '|':
                yield before + layout[pos-1] + after
            if pos + 1 < len(layout) and layout[pos+1] != '|':
                yield before + layout[pos+1] + after
            pos = layout.find(c, pos+1)
''', '''        for pos, key in enumerate(layout):
            if key != c:
                continue
            if pos > 0 and layout[pos - 1] != '|':
                yield before + layout[pos - 1] + after
            if pos + 1 < len(layout) and layout[pos + 1] != '|':
                yield before + layout[pos + 1] + after
'''), file=P)
t('key-while-true', ('''        pos = layout.find(c)
        while pos != -1:
            if pos > 0 and layout[pos-1] != '|':
                yield before + layout[pos-1] + after
            if pos + 1 < len(layout) and layout[pos+1] != '|':
                yield before + layout[pos+1] + after
            pos = layout.find(c, pos+1)
''', '''        start = 0
        while True:
            pos = layout.find(c, start)
            if pos < 0:
                break
            for near in (pos - 1, pos + 1):
                if 0 <= near < len(layout) and layout[near] != '|':
                    yield before + layout[near] + after
            start = pos + 1
'''), file=P)
t('double-zip', ('''    for i in range(3, len(word)):
        if word[i-2] == word[i] and word[i-3] == word[i-1]:
            yield word[:i-1] + word[i+1:]
''', '''    for end in range(4, len(word) + 1):
        if word[end - 4:end - 2] == word[end - 2:end]:
            yield word[:end - 2] + word[end:]
'''), file=P)
t('twowords-comp', ('''    for i in range(1, len(word)):
        yield [word[:i], word[i:]]
''', '''    yield from ([word[:i], word[i:]] for i in range(1, len(word)))
'''), file=P)
t('rep-partition', ('''            if ' ' in suggestion:
                yield suggestion.split(' ', 2)
''', '''            words = suggestion.split(' ', 2)
            if len(words) > 1:
                yield words
'''), file=P)
t('forms-helper', ('''    for suf in suffixes:
        root = word.stem[0:-len(suf.strip)] if suf.strip else word.stem
        res.append(root + suf.add)
''', '''    def cut(text, suffix):
        return text[:-len(suffix.strip)] if suffix.strip else text
    res.extend(cut(word.stem, suf) + suf.add for suf in suffixes)
'''), ('''        root = word.stem[len(pref.strip):-len(suf.strip)] if suf.strip else word.stem[len(pref.strip):]
        res.append(pref.add + root + suf.add)
''', '''        root = cut(word.stem, suf)[len(pref.strip):] if not pref.strip else word.stem[len(pref.strip):len(word.stem) - len(suf.strip)]
        res.append(pref.add + root + suf.add)
'''), file=NG)
t('filter-guesses-any', ('''        if not any(known_word in value for known_word in known):
            found += 1
            yield value
''', '''        if any(known_word in value for known_word in known):
            continue
        found += 1
        yield value
'''), file=NG)
t('guesses-sort', ('''    guesses2 = sorted(guesses2, key=itemgetter(0), reverse=True)
''', '''    guesses2.sort(key=lambda pair: pair[0], reverse=True)
'''), file=NG)
t('roots-candidates', ('''    for word in dictionary_words:
        if abs(len(word.stem) - len(misspelling)) > 4:
            continue
        score = root_score(misspelling, word.stem)
        if word.alt_spellings:
            for variant in word.alt_spellings:
                score = max(score, root_score(misspelling, variant))
        if len(root_scores)''', '''    for word in dictionary_words:
        distance = len(word.stem) - len(misspelling)
        if not -4 <= distance <= 4:
            continue
        score = max(root_score(misspelling, text) for text in [word.stem, *word.alt_spellings])
        if len(root_scores)'''), file=NG)
t('conv-longest', ('''            if matches:
                search, pattern, replacement = matches[0]
                res += replacement
                pos += len(search)
            else:
                res += word[pos]
                pos += 1
''', '''            if not matches:
                res += word[pos]
                pos += 1
                continue
            search, _, replacement = matches[0]
            res, pos = res + replacement, pos + len(search)
'''), file=DA)
t('conv-parts', ('''        pos = 0
        res = ''
        while pos < len(word):
''', '''        pos, size = 0, len(word)
        res = ''
        while pos != size:
'''), file=DA)
t('break-anchors', ('''        if pattern.startswith('^') or pattern.endswith('$'):
            self.regexp = re.compile(f"({pattern})")
        else:
            self.regexp = re.compile(f".({pattern}).")
''', '''        anchored = pattern[:1] == '^' or pattern[-1:] == '$'
        around = '' if anchored else '.'
        self.regexp = re.compile(around + '(' + pattern + ')' + around)
'''), file=DA)
t('compoundrule-helper', ('''        relevant_flags = [self.flags.intersection(f) for f in flag_sets]
        return any(
            self.re.fullmatch(''.join(fc))
            for fc in itertools.product(*relevant_flags)
        )
    def partial_match(self, flag_sets):
        relevant_flags = [self.flags.intersection(f) for f in flag_sets]
        return any(
            self.partial_re.fullmatch(''.join(fc))
            for fc in itertools.product(*relevant_flags)
        )
''', '''        return any(self.re.fullmatch(text) for text in self._texts(flag_sets))
    def partial_match(self, flag_sets):
        return any(self.partial_re.fullmatch(text) for text in self._texts(flag_sets))
    def _texts(self, flag_sets):
        relevant_flags = (self.flags & set(f) for f in flag_sets)
        return map(''.join, itertools.product(*relevant_flags))
'''), file=DA)
t('aff-langs', ('''        elif self.LANG in ['tr', 'tr_TR', 'az', 'crh']:     # TODO: more robust language code check!
            self.casing = TurkicCasing()
''', '''        elif self.LANG in TURKIC:
            self.casing = TurkicCasing()
'''), ('''@dataclass
class Aff:
''', '''TURKIC = frozenset({'tr', 'tr_TR', 'az', 'crh'})
@dataclass
class Aff:
'''), file=DA)
t('dic-index', ('''        if ignorecase:
            return self.lowercase_index.get(stem, [])
        return self.index.get(stem, [])
''', '''        index = self.lowercase_index if ignorecase else self.index
        return index[stem] if stem in index else []
'''), file=DD)
t('dic-quantifier', ('''        homonyms = self.homonyms(stem)
        if not homonyms:
            return False
        if for_all:
            return all(flag in homonym.flags for homonym in homonyms)
        return any(flag in homonym.flags for homonym in homonyms)
''', '''        marked = [flag in homonym.flags for homonym in self.homonyms(stem)]
        return bool(marked) and (all if for_all else any)(marked)
'''), file=DD)
t('reader-while-true', ('''        ln = self.io.readline()
        while ln != '':
            self.line_no += 1
''', '''        while True:
            ln = self.io.readline()
            if not ln:
                break
            self.line_no += 1
'''), ('''            yield (self.line_no, ln.strip())
            ln = self.io.readline()
''', '''            yield (self.line_no, ln.strip())
'''), file=RF)
t('reader-bom-lstrip', ('''            if self.line_no == 1 and ln.startswith("\\xef\\xbb\\xbf"):
                ln = ln.replace("\\xef\\xbb\\xbf", '')
            if self.line_no == 1 and ln.startswith("\\ufeff"):
                ln = ln.replace("\\ufeff", '')
''', '''            if self.line_no == 1:
                for mark in ('ï»¿', '\\ufeff'):
                    if ln.startswith(mark):
                        ln = ln.replace(mark, '')
'''), file=RF)
t('aff-kinds', ('''        if directive in ['SFX', 'PFX']:
            if value:
                data[directive][value[0].flag] = value
        else:
            data[directive] = value
''', '''        if directive not in ('SFX', 'PFX'):
            data[directive] = value
        elif value:
            first = value[0]
            data[directive][first.flag] = value
'''), file=RA)
t('aff-islice', ('''        return [
            re.split(r'\\s+', ln)[1:]
            for num, ln in itertools.islice(source, count)
        ]
''', '''        lines = itertools.islice(source, count)
        return [re.split(r'\\s+', line)[1:] for _, line in lines]
'''), file=RA)
t('dic-first-line', ('''        if num == 1 and COUNT_REGEXP.match(line):
            continue
''', '''        is_count = num == 1 and COUNT_REGEXP.match(line) is not None
        if is_count:
            continue
'''), file=RD)
t('dic-ph-get', ('''        if 'ph' in data:
            for pattern in data['ph']:
                if pattern.endswith('*'):
''', '''        if True:
            for pattern in data.get('ph', []):
                if pattern.endswith('*'):
'''), file=RD)
t('dic-partition', ('''                    fro, _, to = pattern.partition('->')
                    aff.REP.append(RepPattern(fro, to))
''', '''                    fro, to = pattern.split('->', 1)
                    aff.REP.append(RepPattern(fro, to))
'''), file=RD)
t('system-loop', ('''            pathes = glob.glob(f'{folder}/{name}.aff')
            if pathes:
                return cls.from_files(pathes[0].replace('.aff', ''))
''', '''            for path in glob.glob(f'{folder}/{name}.aff'):
                return cls.from_files(path.replace('.aff', ''))
'''), file=D)
t('files-paths', ('''        aff, context = readers.read_aff(FileReader(path + '.aff'))
        dic = readers.read_dic(FileReader(path + '.dic', encoding=context.encoding), aff=aff, context=context)
        return cls(aff, dic)
    @classmethod
    def from_zip''', '''        aff_path, dic_path = f'{path}.aff', f'{path}.dic'
        aff, context = readers.read_aff(FileReader(aff_path))
        dic = readers.read_dic(FileReader(dic_path, context.encoding), aff=aff, context=context)
        return cls(aff, dic)
    @classmethod
    def from_zip'''), file=D)
t('lru-metric', ('''def commoncharacters(s1''', '''@functools.lru_cache(maxsize=1024)
def commoncharacters(s1'''), ('def leftcommonsubstring', '''import functools
def leftcommonsubstring'''), file=SM)
t('cached-guess', ('''        self.aff = aff
        self.dic = dic
    def __call__''', '''        self.aff = aff
        self.dic = dic
        self.stats = {}
    def __call__'''))
TRIALS[-2] = ('lru-metric', SM, (('''def commoncharacters(s1''', '''import functools
@functools.lru_cache(maxsize=1024)
def commoncharacters(s1'''),))

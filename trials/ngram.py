"""Behaviour-preserving edits of algo/ngram_suggest.py, algo/phonet_suggest.py"""
TRIALS = []


def t(name, *pairs, file='algo/ngram_suggest.py'):
    TRIALS.append((name, file, pairs))


t('best-score-helper', ('''        score = root_score(misspelling, word.stem)
        if word.alt_spellings:
            for variant in word.alt_spellings:
                score = max(score, root_score(misspelling, variant))
''', '''        score = best_root_score(misspelling, word)
'''), ('''def root_score(''', '''def best_root_score(misspelling, word):
    return max(root_score(misspelling, spelling) for spelling in [word.stem, *word.alt_spellings])


def root_score('''))
t('no-alt-guard', ('''        if word.alt_spellings:
            for variant in word.alt_spellings:
                score = max(score, root_score(misspelling, variant))
''', '''        for variant in word.alt_spellings:
            score = max(score, root_score(misspelling, variant))
'''))
t('score-if', ('''            for variant in word.alt_spellings:
                score = max(score, root_score(misspelling, variant))
''', '''            for variant in word.alt_spellings:
                variant_score = root_score(misspelling, variant)
                if variant_score > score:
                    score = variant_score
'''))
t('push-helper', ('''        if len(root_scores) > MAX_ROOTS:
            heapq.heappushpop(root_scores, (score, word))
        else:
            heapq.heappush(root_scores, (score, word))
''', '''        push_limited(root_scores, (score, word))
'''), ('''def root_score(''', '''def push_limited(heap, item):
    if len(heap) > MAX_ROOTS:
        heapq.heappushpop(heap, item)
    else:
        heapq.heappush(heap, item)


def root_score('''))
t('push-op', ('''        if len(root_scores) > MAX_ROOTS:
            heapq.heappushpop(root_scores, (score, word))
        else:
            heapq.heappush(root_scores, (score, word))
''', '''        push = heapq.heappushpop if len(root_scores) > MAX_ROOTS else heapq.heappush
        push(root_scores, (score, word))
'''))
t('roots-nlargest-all', ('''        if len(root_scores) > MAX_ROOTS:
            heapq.heappushpop(root_scores, (score, word))
        else:
            heapq.heappush(root_scores, (score, word))
''', '''        root_scores.append((score, word))
'''))
t('roots-stage', ('''    root_scores: List[Tuple[float, data.dic.Word]] = []
    for word in dictionary_words:
        if abs(len(word.stem) - len(misspelling)) > 4:
            continue
        score = root_score(misspelling, word.stem)
        if word.alt_spellings:
            for variant in word.alt_spellings:
                score = max(score, root_score(misspelling, variant))
        if len(root_scores) > MAX_ROOTS:
            heapq.heappushpop(root_scores, (score, word))
        else:
            heapq.heappush(root_scores, (score, word))
    roots = heapq.nlargest(MAX_ROOTS, root_scores)
''', '''    roots = find_roots(misspelling, dictionary_words)
'''), ('''def root_score(''', '''def find_roots(misspelling, dictionary_words):
    root_scores = []
    for word in dictionary_words:
        if abs(len(word.stem) - len(misspelling)) > 4:
            continue
        score = root_score(misspelling, word.stem)
        if word.alt_spellings:
            for variant in word.alt_spellings:
                score = max(score, root_score(misspelling, variant))
        if len(root_scores) > MAX_ROOTS:
            heapq.heappushpop(root_scores, (score, word))
        else:
            heapq.heappush(root_scores, (score, word))
    return heapq.nlargest(MAX_ROOTS, root_scores)


def root_score('''))
t('guess-append', ('''                if score > threshold:
                    heapq.heappush(guess_scores, (score, variant, root.stem))
''', '''                if score > threshold:
                    guess_scores.append((score, variant, root.stem))
'''), ('''            if score > threshold:
                heapq.heappush(guess_scores, (score, form, form))
''', '''            if score > threshold:
                guess_scores.append((score, form, form))
'''))
t('guess-candidates', ('''        if root.alt_spellings:
            for variant in root.alt_spellings:
                score = rough_affix_score(misspelling, variant)
                if score > threshold:
                    heapq.heappush(guess_scores, (score, variant, root.stem))
        for form in forms_for(root, prefixes, suffixes, similar_to=misspelling):
            score = rough_affix_score(misspelling, form.lower())
            if score > threshold:
                heapq.heappush(guess_scores, (score, form, form))
''', '''        candidates = [(variant, variant, root.stem) for variant in root.alt_spellings]
        candidates += [
            (form.lower(), form, form)
            for form in forms_for(root, prefixes, suffixes, similar_to=misspelling)
        ]
        for compared, text, real in candidates:
            score = rough_affix_score(misspelling, compared)
            if score > threshold:
                heapq.heappush(guess_scores, (score, text, real))
'''))
t('sorted-lambda', ('''    guesses2 = sorted(guesses2, key=itemgetter(0), reverse=True)
    yield from''', '''    guesses2.sort(key=lambda guess: guess[0], reverse=True)
    yield from'''))
t('guesses-loop', ('''    guesses2 = [
        (precise_affix_score(misspelling, compared.lower(), fact, base=score, has_phonetic=has_phonetic), real)
        for (score, compared, real) in guesses
    ]
''', '''    guesses2 = []
    for rough, compared, real in guesses:
        precise = precise_affix_score(misspelling, compared.lower(), fact, base=rough, has_phonetic=has_phonetic)
        guesses2.append((precise, real))
'''))
t('fact-if', ('''    fact = (10.0 - maxdiff) / 5.0 if maxdiff >= 0 else 1.0
''', '''    if maxdiff < 0:
        fact = 1.0
    else:
        fact = (10.0 - maxdiff) / 5.0
'''))
t('root-lower-once', ('''    return (
        sm.ngram(3, word1, word2.lower(), longer_worse=True) +
        sm.leftcommonsubstring(word1, word2.lower())
    )
''', '''    lowered = word2.lower()
    similarity = sm.ngram(3, word1, lowered, longer_worse=True)
    return similarity + sm.leftcommonsubstring(word1, lowered)
'''))
t('precise-sum', ('''    result = 2 * lcs - abs(len(word1) - len(word2))
    result += sm.leftcommonsubstring(word1, word2)
    if sm.commoncharacters(word1, word2.lower()):
        result += 1
    result += sm.ngram(4, word1, word2, any_mismatch=True)
    bigrams = (
        sm.ngram(2, word1, word2, any_mismatch=True, weighted=True) +
        sm.ngram(2, word2, word1, any_mismatch=True, weighted=True)
    )
    result += bigrams
''', '''    bigrams = sum(
        sm.ngram(2, first, second, any_mismatch=True, weighted=True)
        for first, second in ((word1, word2), (word2, word1))
    )
    result = (
        2 * lcs - abs(len(word1) - len(word2)) +
        sm.leftcommonsubstring(word1, word2) +
        (1 if sm.commoncharacters(word1, word2.lower()) > 0 else 0) +
        sm.ngram(4, word1, word2, any_mismatch=True) +
        bigrams
    )
'''))
t('precise-limit', ('''    if has_phonetic:
        questionable_limit = len(word2) * diff_factor
    else:
        questionable_limit = (len(word1) + len(word2)) * diff_factor
    if bigrams < questionable_limit:
        result -= 1000
    return result
''', '''    length = len(word2)
    if not has_phonetic:
        length += len(word1)
    if bigrams < length * diff_factor:
        return result - 1000
    return result
'''))
t('precise-chain', ('''    if len(word1) == len(word2) and len(word1) == lcs:
''', '''    if len(word1) == len(word2) == lcs:
'''))
t('threshold-join', ('''        mangled = list(word)
        for pos in range(start_pos, len(word), 4):
            mangled[pos] = '*'
        mangled_word = ''.join(mangled)
''', '''        mangled_word = ''.join(
            '*' if pos >= start_pos and (pos - start_pos) % 4 == 0 else char
            for pos, char in enumerate(word)
        )
'''))
t('threshold-slice', ('''        mangled = list(word)
        for pos in range(start_pos, len(word), 4):
            mangled[pos] = '*'
        mangled_word = ''.join(mangled)
''', '''        mangled = list(word)
        mangled[start_pos::4] = '*' * len(mangled[start_pos::4])
        mangled_word = ''.join(mangled)
'''))
t('threshold-tuple', ('''    for start_pos in range(1, 4):
''', '''    for start_pos in (1, 2, 3):
'''))
t('forms-loops', ('''    suffixes = [
        suffix
        for flag in word.flags
        for suffix in all_suffixes.get(flag, [])
        if suffix.cond_regexp.search(word.stem) and similar_to.endswith(suffix.add)
    ]
''', '''    suffixes = []
    for flag in word.flags:
        for suffix in all_suffixes.get(flag, []):
            if not similar_to.endswith(suffix.add):
                continue
            if suffix.cond_regexp.search(word.stem):
                suffixes.append(suffix)
'''))
t('forms-cross-inline', ('''    cross = [
        (prefix, suffix)
        for prefix in prefixes
        for suffix in suffixes
        if suffix.crossproduct and prefix.crossproduct
    ]
''', ''), ('''    for pref, suf in cross:
        root = word.stem[len(pref.strip):-len(suf.strip)] if suf.strip else word.stem[len(pref.strip):]
        res.append(pref.add + root + suf.add)
''', '''    for pref in prefixes:
        if not pref.crossproduct:
            continue
        for suf in suffixes:
            if suf.crossproduct:
                root = word.stem[len(pref.strip):]
                if suf.strip:
                    root = root[:-len(suf.strip)]
                res.append(pref.add + root + suf.add)
''')) if False else None
t('forms-cross-loop', ('''    cross = [
        (prefix, suffix)
        for prefix in prefixes
        for suffix in suffixes
        if suffix.crossproduct and prefix.crossproduct
    ]
''', ''), ('''    for pref, suf in cross:
        root = word.stem[len(pref.strip):-len(suf.strip)] if suf.strip else word.stem[len(pref.strip):]
        res.append(pref.add + root + suf.add)
''', '''    for pref in prefixes:
        if not pref.crossproduct:
            continue
        for suf in suffixes:
            if suf.crossproduct:
                root = word.stem[len(pref.strip):-len(suf.strip)] if suf.strip else word.stem[len(pref.strip):]
                res.append(pref.add + root + suf.add)
'''))
t('forms-strip-helper', ('''        root = word.stem[0:-len(suf.strip)] if suf.strip else word.stem
        res.append(root + suf.add)
''', '''        root = word.stem[:len(word.stem) - len(suf.strip)]
        res.append(root + suf.add)
'''))
t('forms-comps', ('''    for suf in suffixes:
        root = word.stem[0:-len(suf.strip)] if suf.strip else word.stem
        res.append(root + suf.add)
''', '''    res += [
        (word.stem[0:-len(suf.strip)] if suf.strip else word.stem) + suf.add
        for suf in suffixes
    ]
'''), ('''    for pref in prefixes:
        root = word.stem[len(pref.strip):]
        res.append(pref.add + root)
''', '''    res.extend(pref.add + word.stem[len(pref.strip):] for pref in prefixes)
'''))
t('forms-filter-helper', ('''        if suffix.cond_regexp.search(word.stem) and similar_to.endswith(suffix.add)
''', '''        if fits(suffix) and similar_to.endswith(suffix.add)
'''), ('''        if prefix.cond_regexp.search(word.stem) and similar_to.startswith(prefix.add)
''', '''        if fits(prefix) and similar_to.startswith(prefix.add)
'''), ('''    res = [word.stem]
''', '''    res = [word.stem]

    def fits(affix):
        return affix.cond_regexp.search(word.stem)
'''))
t('filter-continue', ('''        if not any(known_word in value for known_word in known):
            found += 1
            yield value
''', '''        if any(known_word in value for known_word in known):
            continue
        yield value
        found += 1
'''))
t('filter-found-bool', ('''    found = 0
''', '''    found = False
'''), ('''            if found > 0 or onlymaxdiff:
''', '''            if found or onlymaxdiff:
'''), ('''            found += 1
            yield value
''', '''            found = True
            yield value
'''))
t('filter-nested', ('''        if seen and score <= 1000:
            return
        if score > 1000:
            seen = True
        elif score < -100:
            if found > 0 or onlymaxdiff:
                return
            seen = True
''', '''        if score > 1000:
            seen = True
        else:
            if seen:
                return
            if score < -100:
                if onlymaxdiff or found > 0:
                    return
                seen = True
'''))
t('itemget', ('''    for (_, root) in roots:
''', '''    for root in [pair[1] for pair in roots]:
'''))
P = 'algo/phonet_suggest.py'
t('ph-comp', ('''    for (_, sug) in guesses2:
        yield sug
''', '''    yield from (sug for _, sug in guesses2)
'''), file=P)
t('ph-sort', ('''    guesses2 = sorted(guesses2, key=itemgetter(0), reverse=True)
''', '''    guesses2.sort(key=itemgetter(0), reverse=True)
'''), file=P)
t('ph-sort-neg', ('''    guesses2 = sorted(guesses2, key=itemgetter(0), reverse=True)
''', '''    guesses2 = sorted(guesses2, key=lambda pair: -pair[0])
'''), file=P)
t('ph-similar-helper', ('''        nscore = ng.root_score(misspelling, word.stem)
        if word.alt_spellings:
            for variant in word.alt_spellings:
                nscore = max(nscore, ng.root_score(misspelling, variant))
        if nscore <= 2:
            continue
''', '''        if similarity(misspelling, word) <= 2:
            continue
'''), ('''def final_score(''', '''def similarity(misspelling, word):
    nscore = ng.root_score(misspelling, word.stem)
    if word.alt_spellings:
        for variant in word.alt_spellings:
            nscore = max(nscore, ng.root_score(misspelling, variant))
    return nscore


def final_score('''), file=P)
t('ph-metaphone-for-else', ('''        match = None
        for rule in table.rules.get(word[pos], []):
            match = rule.match(word, pos)
            if match:
                res += rule.replacement
                pos += max(match.span()[1] - match.span()[0], 1)
                break
        if not match:
            pos += 1
''', '''        for rule in table.rules.get(word[pos], []):
            match = rule.match(word, pos)
            if match:
                res += rule.replacement
                start, end = match.span()
                pos += max(end - start, 1)
                break
        else:
            pos += 1
'''), file=P)
t('ph-metaphone-list', ('''    res = ''
''', '''    parts = []
'''), ('''                res += rule.replacement
''', '''                parts.append(rule.replacement)
'''), ('''    return res
''', '''    return ''.join(parts)
'''), file=P)
t('ph-metaphone-helper', ('''        match = None
        for rule in table.rules.get(word[pos], []):
            match = rule.match(word, pos)
            if match:
                res += rule.replacement
                pos += max(match.span()[1] - match.span()[0], 1)
                break
        if not match:
            pos += 1
    return res
''', '''        replacement, length = apply_rules(table, word, pos)
        res += replacement
        pos += length
    return res


def apply_rules(table, word, pos):
    for rule in table.rules.get(word[pos], []):
        match = rule.match(word, pos)
        if match:
            return rule.replacement, max(len(match.group()), 1)
    return '', 1
'''), file=P)
t('ph-final-sum', ('''    return 2 * sm.lcslen(word1, word2) - abs(len(word1) - len(word2)) + sm.leftcommonsubstring(word1, word2)
''', '''    score = sm.leftcommonsubstring(word1, word2)
    score += 2 * sm.lcslen(word1, word2)
    score -= abs(len(word2) - len(word1))
    return score
'''), file=P)
t('ph-double', ('''        score = 2 * sm.ngram(3, misspelling_ph, metaphone(table, word.stem), longer_worse=True)
''', '''        stem_ph = metaphone(table, word.stem)
        score = sm.ngram(3, misspelling_ph, stem_ph, longer_worse=True) * 2
'''), file=P)

"""
Reference for the similarity search (C29-C31).
"""

import heapq
from operator import itemgetter

import spylls.hunspell.algo.ngram_suggest as ng
import spylls.hunspell.algo.string_metrics as sm
from spylls.hunspell.algo.phonet_suggest import metaphone, final_score


def best_root_score(misspelling, entry):
    score = ng.root_score(misspelling, entry.stem)
    if entry.alt_spellings:
        for variant in entry.alt_spellings:
            score = max(score, ng.root_score(misspelling, variant))
    return score


def ngram_suggest(misspelling, *, dictionary_words, prefixes, suffixes, known, maxdiff, onlymaxdiff=False,
                  has_phonetic=False):
    scores = []
    for entry in dictionary_words:
        if abs(len(entry.stem) - len(misspelling)) <= 4:
            scores.append((best_root_score(misspelling, entry), entry))

    threshold = ng.detect_threshold(misspelling)
    guesses = []
    for (_, root) in heapq.nlargest(100, scores):
        if root.alt_spellings:
            for variant in root.alt_spellings:
                score = ng.rough_affix_score(misspelling, variant)
                if score > threshold:
                    guesses.append((score, variant, root.stem))
        for form in ng.forms_for(root, prefixes, suffixes, similar_to=misspelling):
            score = ng.rough_affix_score(misspelling, form.lower())
            if score > threshold:
                guesses.append((score, form, form))

    factor = (10.0 - maxdiff) / 5.0 if maxdiff >= 0 else 1.0
    scored = [
        (ng.precise_affix_score(misspelling, compared.lower(), factor, base=score, has_phonetic=has_phonetic), given)
        for (score, compared, given) in heapq.nlargest(200, guesses)
    ]
    for text in ng.filter_guesses(sorted(scored, key=itemgetter(0), reverse=True), known=known,
                                  onlymaxdiff=onlymaxdiff):
        yield text


def suffix_fits(suffix, stem, misspelling):
    return suffix.cond_regexp.search(stem) and misspelling.endswith(suffix.add)


def prefix_fits(prefix, stem, misspelling):
    return prefix.cond_regexp.search(stem) and misspelling.startswith(prefix.add)


def unsuffixed(stem, suffix):
    return stem[:-len(suffix.strip)] if suffix.strip else stem


def forms_for(word, all_prefixes, all_suffixes, *, similar_to):
    res = [word.stem]
    for flag in word.flags:
        for suffix in all_suffixes.get(flag, []):
            if suffix_fits(suffix, word.stem, similar_to):
                res.append(unsuffixed(word.stem, suffix) + suffix.add)
    for pflag in word.flags:
        for prefix in all_prefixes.get(pflag, []):
            if prefix_fits(prefix, word.stem, similar_to):
                for sflag in word.flags:
                    for suffix in all_suffixes.get(sflag, []):
                        if suffix_fits(suffix, word.stem, similar_to) and suffix.crossproduct and prefix.crossproduct:
                            begin = len(prefix.strip)
                            root = word.stem[begin:-len(suffix.strip)] if suffix.strip else word.stem[begin:]
                            res.append(prefix.add + root + suffix.add)
    for flag in word.flags:
        for prefix in all_prefixes.get(flag, []):
            if prefix_fits(prefix, word.stem, similar_to):
                res.append(prefix.add + word.stem[len(prefix.strip):])
    return res


def filter_guesses(guesses, *, known, onlymaxdiff=True):
    decided = False
    given = 0
    for (score, text) in guesses:
        if decided and score <= 1000:
            return
        if score > 1000:
            decided = True
        elif score < -100:
            if given > 0 or onlymaxdiff:
                return
            decided = True
        if not any(one in text for one in known):
            given += 1
            yield text


def phonet_suggest(misspelling, *, dictionary_words, table):
    misspelling = misspelling.lower()
    code = metaphone(table, misspelling)
    scores = []
    for entry in dictionary_words:
        if abs(len(entry.stem) - len(misspelling)) <= 3 and best_root_score(misspelling, entry) > 2:
            score = 2 * sm.ngram(3, code, metaphone(table, entry.stem), longer_worse=True)
            scores.append((score, entry.stem))
    scored = [(score + final_score(misspelling, text.lower()), text) for (score, text) in heapq.nlargest(100, scores)]
    for (_, text) in sorted(scored, key=itemgetter(0), reverse=True):
        yield text


def phonetic_score(word1, word2):
    return 2 * sm.lcslen(word1, word2) - abs(len(word1) - len(word2)) + sm.leftcommonsubstring(word1, word2)


def meta(table, word):
    pos = 0
    word = word.upper()
    res = ''
    while pos < len(word):
        match = None
        for rule in table.rules.get(word[pos], []):
            match = rule.match(word, pos)
            if match:
                res += rule.replacement
                pos += max(match.span()[1] - match.span()[0], 1)
                break
        if not match:
            pos += 1
    return res


# ---- scores

def root_score(word1, word2):
    other = word2.lower()
    return sm.ngram(3, word1, other, longer_worse=True) + sm.leftcommonsubstring(word1, other)


def rough_affix_score(word1, word2):
    return sm.ngram(len(word1), word1, word2, any_mismatch=True) + sm.leftcommonsubstring(word1, word2)


def precise_affix_score(word1, word2, diff_factor, *, base, has_phonetic):
    common = sm.lcslen(word1, word2)
    if len(word1) == len(word2) and len(word1) == common:
        return base + 2000
    score = 2 * common - abs(len(word1) - len(word2)) + sm.leftcommonsubstring(word1, word2)
    if sm.commoncharacters(word1, word2.lower()):
        score += 1
    score += sm.ngram(4, word1, word2, any_mismatch=True)
    bigrams = (sm.ngram(2, word1, word2, any_mismatch=True, weighted=True) +
               sm.ngram(2, word2, word1, any_mismatch=True, weighted=True))
    score += bigrams
    limit = len(word2) * diff_factor if has_phonetic else (len(word1) + len(word2)) * diff_factor
    if bigrams < limit:
        score -= 1000
    return score


def detect_threshold(word):
    total = 0.0
    for start in range(1, 4):
        letters = list(word)
        for pos in range(start, len(word), 4):
            letters[pos] = '*'
        total += sm.ngram(len(word), word, ''.join(letters), any_mismatch=True)
    return total // 3 - 1


def commoncharacters(s1, s2):
    return sum(a == b for a, b in zip(s1, s2))


def leftcommonsubstring(s1, s2):
    for i, (a, b) in enumerate(zip(s1, s2)):
        if a != b:
            return i
    return min(len(s1), len(s2))


def ngram(max_ngram_size, s1, s2, *, weighted=False, any_mismatch=False, longer_worse=False):
    if len(s2) == 0:
        return 0
    total = 0
    for size in range(1, max_ngram_size + 1):
        score = 0
        for pos in range(len(s1) - size + 1):
            if s1[pos:pos + size] in s2:
                score += 1
            elif weighted:
                score -= 1
                if pos == 0 or pos + size == len(s1):
                    score -= 1
        total += score
        if score < 2 and not weighted:
            break
    if longer_worse:
        penalty = len(s2) - len(s1) - 2
    elif any_mismatch:
        penalty = abs(len(s2) - len(s1)) - 2
    else:
        penalty = 0
    return total - penalty if penalty > 0 else total


def lcslen(s1, s2):
    m = len(s1)
    n = len(s2)
    c = [[0 for j in range(n + 1)] for i in range(m + 1)]
    for i in range(m):
        for j in range(n):
            if s1[i] == s2[j]:
                c[i][j] = c[i - 1][j - 1] + 1
            elif c[i - 1][j] >= c[i][j - 1]:
                c[i][j] = c[i - 1][j]
            else:
                c[i][j] = c[i][j - 1]
    return c[m - 1][n - 1]

"""Behaviour-preserving edits of algo/permutations.py, algo/capitalization.py and algo/string_metrics.py"""
TRIALS = []


def t(name, *pairs, file='algo/permutations.py'):
    TRIALS.append((name, file, pairs))


t('repl-helper', ('''            suggestion = word[:match.start()] + pattern.replacement.replace('_', ' ') + word[match.end():]
            yield suggestion
''', '''            start, end = match.span()
            replacement = pattern.replacement.replace('_', ' ')
            suggestion = ''.join([word[:start], replacement, word[end:]])
            yield suggestion
'''))
t('repl-hoist', ('''        for match in pattern.regexp.finditer(word):
            suggestion = word[:match.start()] + pattern.replacement.replace('_', ' ') + word[match.end():]
''', '''        replacement = pattern.replacement.replace('_', ' ')
        for match in pattern.regexp.finditer(word):
            suggestion = f'{word[:match.start()]}{replacement}{word[match.end():]}'
'''))
t('repl-split-flat', ('''    if len(word) < 2 or not reptable:
        return
    for pattern in reptable:
        for match in pattern.regexp.finditer(word):
            suggestion =''', '''    if len(word) < 2:
        return
    matches = ((pattern, match) for pattern in reptable or [] for match in pattern.regexp.finditer(word))
    for pattern, match in matches:
        if True:
            suggestion ='''))
t('map-filter', ('''                if pos != -1:
                    for other in options:
                        if other == option:
                            continue
                        replaced = word[:pos] + other + word[pos+len(option):]
                        yield replaced
                        for variant in mapchars_internal(replaced, pos + len(other)):
                            yield variant
''', '''                if pos == -1:
                    continue
                end = pos + len(option)
                for other in options:
                    if other != option:
                        replaced = word[:pos] + other + word[end:]
                        yield replaced
                        yield from mapchars_internal(replaced, pos + len(other))
'''))
t('map-module', ('''    def mapchars_internal(word, start=0):
        if start >= len(word):
            return
        for options in maptable:
            for option in options:
                pos = word.find(option, start)
                if pos != -1:
                    for other in options:
                        if other == option:
                            continue
                        replaced = word[:pos] + other + word[pos+len(option):]
                        yield replaced
                        for variant in mapchars_internal(replaced, pos + len(other)):
                            yield variant
    yield from mapchars_internal(word)
''', '''    yield from _mapchars_from(word, maptable, 0)


def _mapchars_from(word, maptable, start):
    if start >= len(word):
        return

    for options in maptable:
        for option in options:
            pos = word.find(option, start)
            if pos != -1:
                for other in options:
                    if other == option:
                        continue
                    replaced = word[:pos] + other + word[pos+len(option):]
                    yield replaced
                    yield from _mapchars_from(replaced, maptable, pos + len(other))
'''))
t('swap-join', ('''    for i in range(len(word) - 1):
        yield word[:i] + word[i+1] + word[i] + word[i+2:]
''', '''    for i in range(1, len(word)):
        yield word[:i - 1] + word[i] + word[i - 1] + word[i + 1:]
'''))
t('swap-list', ('''    for i in range(len(word) - 1):
        yield word[:i] + word[i+1] + word[i] + word[i+2:]
''', '''    for i in range(len(word) - 1):
        chars = list(word)
        chars[i], chars[i + 1] = chars[i + 1], chars[i]
        yield ''.join(chars)
'''))
t('swap-zip', ('''    for i in range(len(word) - 1):
        yield word[:i] + word[i+1] + word[i] + word[i+2:]
''', '''    for i, (first, second) in enumerate(zip(word, word[1:])):
        yield word[:i] + second + first + word[i+2:]
'''))
t('swap-branches', ('''    if len(word) in [4,  5]:
        yield word[1] + word[0] + (word[2] if len(word) == 5 else '') + word[-1] + word[-2]
        if len(word) == 5:
            yield word[0] + word[2] + word[1] + word[-1] + word[-2]
''', '''    length = len(word)
    if length == 4:
        yield word[1] + word[0] + word[3] + word[2]
    elif length == 5:
        yield word[1] + word[0] + word[2] + word[4] + word[3]
        yield word[0] + word[2] + word[1] + word[4] + word[3]
'''))
t('longswap-helper', ('''            yield word[:first] + word[second] + word[first+1:second] + word[first] + word[second+1:]
''', '''            yield swap_at(word, first, second)
'''), ('''def longswapchar(word: str) -> Iterator[str]:
''', '''def swap_at(word, i, j):
    return word[:i] + word[j] + word[i + 1:j] + word[i] + word[j + 1:]


def longswapchar(word: str) -> Iterator[str]:
'''))
t('longswap-var', ('''    for first in range(len(word) - 2):
        for second in range(first + 2, min(first + MAX_CHAR_DISTANCE, len(word))):
''', '''    length = len(word)
    for first in range(0, length - 2):
        limit = min(length, first + MAX_CHAR_DISTANCE)
        for second in range(first + 2, limit):
'''))
t('longswap-all-range', ('''    for first in range(len(word) - 2):
''', '''    for first in range(len(word)):
'''))
t('key-helper', ('''        pos = layout.find(c)
        while pos != -1:
            if pos > 0 and layout[pos-1] != '|':
                yield before + layout[pos-1] + after
            if pos + 1 < len(layout) and layout[pos+1] != '|':
                yield before + layout[pos+1] + after
            pos = layout.find(c, pos+1)
''', '''        for pos, key in enumerate(layout):
            if key != c:
                continue
            if pos > 0 and layout[pos-1] != '|':
                yield before + layout[pos-1] + after
            if pos + 1 < len(layout) and layout[pos+1] != '|':
                yield before + layout[pos+1] + after
'''))
t('key-neighbours', ('''            if pos > 0 and layout[pos-1] != '|':
                yield before + layout[pos-1] + after
            if pos + 1 < len(layout) and layout[pos+1] != '|':
                yield before + layout[pos+1] + after
''', '''            for neighbour in (pos - 1, pos + 1):
                if 0 <= neighbour < len(layout) and layout[neighbour] != '|':
                    yield before + layout[neighbour] + after
'''))
t('key-upper', ('''        if c != c.upper():
            yield before + c.upper() + after
''', '''        upper = c.upper()
        if upper != c:
            yield before + upper + after
'''))
t('extra-gen', ('''    if len(word) < 2:
        return
    for i in range(len(word)):
        yield word[:i] + word[i+1:]
''', '''    if len(word) >= 2:
        yield from (word[:i] + word[i + 1:] for i in range(len(word)))
'''))
t('extra-enumerate', ('''    for i in range(len(word)):
        yield word[:i] + word[i+1:]
''', '''    for i, _ in enumerate(word):
        yield word[:i] + word[i+1:]
'''))
t('extra-while', ('''    for i in range(len(word)):
        yield word[:i] + word[i+1:]
''', '''    i = 0
    while i < len(word):
        yield word[:i] + word[i+1:]
        i += 1
'''))
t('forgot-product', ('''    for c in trystring:
        for i in range(len(word) + 1):
            yield word[:i] + c + word[i:]
''', '''    positions = range(len(word) + 1)
    for c, i in itertools.product(trystring, positions):
        yield word[:i] + c + word[i:]
'''), ('''from typing import''', '''import itertools
from typing import'''))
t('forgot-noguard', ('''    if not trystring:
        return
    for c in trystring:
        for i in range(len(word) + 1):
''', '''    for c in trystring:
        for i in range(len(word) + 1):
'''))
t('move-var', ('''        for topos in range(frompos + 3, min(len(word), frompos + MAX_CHAR_DISTANCE + 1)):
            yield word[:frompos] + word[frompos+1:topos] + char + word[topos:]
''', '''        rest = word[:frompos] + word[frompos + 1:]
        for topos in range(frompos + 3, min(len(word), frompos + MAX_CHAR_DISTANCE + 1)):
            yield rest[:topos - 1] + char + rest[topos - 1:]
'''))
t('move-step', ('''    for frompos in reversed(range(len(word))):
        for topos in reversed(range(max(0, frompos - MAX_CHAR_DISTANCE + 1), frompos - 1)):
''', '''    for frompos in range(len(word) - 1, -1, -1):
        for topos in reversed(range(max(0, frompos - MAX_CHAR_DISTANCE + 1), frompos - 1)):
'''))
t('move-two-helpers', ('''    for frompos, char in enumerate(word):
        for topos in range(frompos + 3, min(len(word), frompos + MAX_CHAR_DISTANCE + 1)):
            yield word[:frompos] + word[frompos+1:topos] + char + word[topos:]
    for frompos in reversed(range(len(word))):
        for topos in reversed(range(max(0, frompos - MAX_CHAR_DISTANCE + 1), frompos - 1)):
            yield word[:topos] + word[frompos] + word[topos:frompos] + word[frompos+1:]
''', '''    yield from _move_forward(word)
    yield from _move_back(word)


def _move_forward(word):
    for frompos, char in enumerate(word):
        for topos in range(frompos + 3, min(len(word), frompos + MAX_CHAR_DISTANCE + 1)):
            yield word[:frompos] + word[frompos+1:topos] + char + word[topos:]


def _move_back(word):
    for frompos in reversed(range(len(word))):
        for topos in reversed(range(max(0, frompos - MAX_CHAR_DISTANCE + 1), frompos - 1)):
            yield word[:topos] + word[frompos] + word[topos:frompos] + word[frompos+1:]
'''))
t('badchar-if', ('''            if word[i] == c:
                continue
            yield word[:i] + c + word[i+1:]
''', '''            if word[i] != c:
                yield word[:i] + c + word[i+1:]
'''))
t('badchar-reversed-enum', ('''        for i in reversed(range(len(word))):
            if word[i] == c:
                continue
            yield word[:i] + c + word[i+1:]
''', '''        for i, old in reversed(list(enumerate(word))):
            if old == c:
                continue
            yield word[:i] + c + word[i+1:]
'''))
t('double-slices', ('''        if word[i-2] == word[i] and word[i-3] == word[i-1]:
''', '''        if word[i-3:i-1] == word[i-1:i+1]:
'''))
t('double-offset', ('''    for i in range(3, len(word)):
        if word[i-2] == word[i] and word[i-3] == word[i-1]:
            yield word[:i-1] + word[i+1:]
''', '''    for i in range(2, len(word) - 1):
        if word[i - 1] == word[i + 1] and word[i - 2] == word[i]:
            yield word[:i] + word[i + 2:]
'''))
t('two-comp', ('''    for i in range(1, len(word)):
        yield [word[:i], word[i:]]
''', '''    yield from ([word[:i], word[i:]] for i in range(1, len(word)))
'''))
t('const-rename', ('''MAX_CHAR_DISTANCE = 4
''', '''MAX_CHAR_DISTANCE = 2 * 2
'''))
C = 'algo/capitalization.py'
t('guess-one-return', ('''        if word.islower():
            return Type.NO
        if word.isupper():
            return Type.ALL
        if word[:1].isupper():
            return Type.INIT if word[1:].islower() else Type.HUHINIT
        return Type.HUH
''', '''        if word.islower():
            result = Type.NO
        elif word.isupper():
            result = Type.ALL
        elif not word[:1].isupper():
            result = Type.HUH
        elif word[1:].islower():
            result = Type.INIT
        else:
            result = Type.HUHINIT
        return result
'''), file=C)
t('lower-startswith', ('''        if not word or word[0] == 'İ':
            return []
        return [word.lower().replace('i̇', 'i')]
''', '''        if not word:
            return []
        if word.startswith('İ'):
            return []
        lowered = word.lower()
        return [lowered.replace('i̇', 'i')]
'''), file=C)
t('capitalize-gen', ('''        if len(word) == 1:
            return iter([self.upper(word[0])])
        else:
            return (self.upper(word[0]) + lower for lower in self.lower(word[1:]))
''', '''        first, rest = self.upper(word[:1]), word[1:]
        if not rest:
            return iter([first])
        return (first + lower for lower in self.lower(rest))
'''), file=C)
t('capitalize-yield', ('''        if len(word) == 1:
            return iter([self.upper(word[0])])
        else:
            return (self.upper(word[0]) + lower for lower in self.lower(word[1:]))
''', '''        if len(word) == 1:
            yield self.upper(word)
        else:
            for lower in self.lower(word[1:]):
                yield self.upper(word[0]) + lower
'''), file=C)
t('variants-early', ('''        if captype == Type.NO:
            result = [word]
        elif captype == Type.INIT:
            result = [word, *self.lower(word)]
        elif captype == Type.HUHINIT:
            result = [word, *self.lowerfirst(word)]
        elif captype == Type.HUH:
            result = [word]
        elif captype == Type.ALL:
            result = [word, *self.lower(word), *self.capitalize(word)]
        return (captype, result)
''', '''        result = [word]
        if captype == Type.INIT:
            result.extend(self.lower(word))
        elif captype == Type.HUHINIT:
            result.extend(self.lowerfirst(word))
        elif captype == Type.ALL:
            result.extend(self.lower(word))
            result.extend(self.capitalize(word))
        return (captype, result)
'''), file=C)
t('corrections-merge', ('''        if captype == Type.NO:
            result = [word]
        elif captype == Type.INIT:
            result = [word, *self.lower(word)]
        elif captype == Type.HUHINIT:
            result = [word, *self.lowerfirst(word), *self.lower(word), *self.capitalize(word)]
        elif captype == Type.HUH:
            result = [word, *self.lower(word)]
        elif captype == Type.ALL:
            result = [word, *self.lower(word), *self.capitalize(word)]
        return (captype, result)
''', '''        result = [word]
        if captype == Type.HUHINIT:
            result += self.lowerfirst(word)
        if captype != Type.NO:
            result += self.lower(word)
        if captype in (Type.HUHINIT, Type.ALL):
            result += self.capitalize(word)
        return captype, result
'''), file=C)
t('coerce-elif', ('''        if cap in (Type.INIT, Type.HUHINIT):
            return self.upper(word[:1]) + word[1:]
        if cap == Type.ALL:
            return self.upper(word)
        return word
''', '''        if cap == Type.ALL:
            return self.upper(word)
        if cap == Type.INIT or cap == Type.HUHINIT:
            head, tail = word[:1], word[1:]
            return self.upper(head) + tail
        return word
'''), file=C)
t('german-guess', ('''        result = super().guess(word)
        if 'ß' in word and super().guess(word.replace('ß', '')) == Type.ALL:
            return Type.ALL
        return result
''', '''        if 'ß' in word:
            without = word.replace('ß', '')
            if super().guess(without) == Type.ALL:
                return Type.ALL
        return super().guess(word)
'''), file=C)
t('german-lower', ('''            return [variant for lowered in result for variant in [*sharp_s_variants(lowered), lowered]]
''', '''            variants = []
            for lowered in result:
                variants.extend(sharp_s_variants(lowered))
                variants.append(lowered)
            return variants
'''), file=C)
t('german-recursion', ('''            if pos == -1:
                return []
            replaced = text[:pos] + 'ß' + text[pos+2:]
            return [replaced, *sharp_s_variants(replaced, pos+1), *sharp_s_variants(text, pos+2)]
''', '''            if pos >= 0:
                replaced = text[:pos] + 'ß' + text[pos+2:]
                return [replaced] + sharp_s_variants(replaced, pos+1) + sharp_s_variants(text, pos+2)
            return []
'''), file=C)
S = 'algo/string_metrics.py'
t('common-loop', ('''    return sum(c1 == c2 for c1, c2 in zip(s1, s2))
''', '''    count = 0
    for c1, c2 in zip(s1, s2):
        if c1 == c2:
            count += 1
    return count
'''), file=S)
t('common-sum1', ('''    return sum(c1 == c2 for c1, c2 in zip(s1, s2))
''', '''    return sum(1 for c1, c2 in zip(s1, s2) if c1 == c2)
'''), file=S)
t('common-len', ('''    return sum(c1 == c2 for c1, c2 in zip(s1, s2))
''', '''    return len([c1 for c1, c2 in zip(s1, s2) if c1 == c2])
'''), file=S)
t('left-counter', ('''    for (i, (c1, c2)) in enumerate(zip(s1, s2)):
        if c1 != c2:
            return i
    return min(len(s1), len(s2))
''', '''    length = 0
    for c1, c2 in zip(s1, s2):
        if c1 != c2:
            break
        length += 1
    return length
'''), file=S)
t('left-takewhile', ('''    for (i, (c1, c2)) in enumerate(zip(s1, s2)):
        if c1 != c2:
            return i
    return min(len(s1), len(s2))
''', '''    limit = min(len(s1), len(s2))
    for i in range(limit):
        if s1[i] != s2[i]:
            return i
    return limit
'''), file=S)
t('ngram-helper', ('''        ns = 0
        for pos in range(l1 - ngram_size + 1):
            if s1[pos:pos+ngram_size] in s2:
                ns += 1
            elif weighted:
                ns -= 1
                if pos == 0 or pos + ngram_size == l1:
                    ns -= 1
''', '''        ns = _ngram_size_score(ngram_size, s1, s2, weighted)
'''), ('''def lcslen(''', '''def _ngram_size_score(size, s1, s2, weighted):
    score = 0
    for pos in range(len(s1) - size + 1):
        if s1[pos:pos+size] in s2:
            score += 1
        elif weighted:
            score -= 1
            if pos == 0 or pos + size == len(s1):
                score -= 1
    return score


def lcslen('''), file=S)
t('ngram-penalty', ('''    if longer_worse:
        penalty = (l2 - l1) - 2
    elif any_mismatch:
        penalty = abs(l2 - l1) - 2
    else:
        penalty = 0
    return nscore - penalty if penalty > 0 else nscore
''', '''    penalty = 0
    if longer_worse:
        penalty = l2 - l1 - 2
    elif any_mismatch:
        penalty = abs(l2 - l1) - 2
    return nscore - max(penalty, 0)
'''), file=S)
t('ngram-penalty-helper', ('''    if longer_worse:
        penalty = (l2 - l1) - 2
    elif any_mismatch:
        penalty = abs(l2 - l1) - 2
    else:
        penalty = 0
    return nscore - penalty if penalty > 0 else nscore
''', '''    difference = len(s2) - len(s1)
    if longer_worse:
        penalty = difference - 2
    elif any_mismatch:
        penalty = abs(difference) - 2
    else:
        return nscore
    if penalty <= 0:
        return nscore
    return nscore - penalty
'''), file=S)
t('lcs-rows', ('''    c = [[0 for j in range(n+1)] for i in range(m+1)]
    for i in range(m):
        for j in range(n):
            if s1[i] == s2[j]:
                c[i][j] = c[i-1][j-1] + 1
            elif c[i-1][j] >= c[i][j-1]:
                c[i][j] = c[i-1][j]
            else:
                c[i][j] = c[i][j-1]
    return c[m-1][n-1]
''', '''    c = [[0] * (n + 1) for _ in range(m + 1)]
    for i in range(m):
        for j in range(n):
            if s1[i] == s2[j]:
                c[i][j] = c[i-1][j-1] + 1
            else:
                c[i][j] = max(c[i-1][j], c[i][j-1])
    return c[m-1][n-1]
'''), file=S)
t('lcs-onebased', ('''    c = [[0 for j in range(n+1)] for i in range(m+1)]
    for i in range(m):
        for j in range(n):
            if s1[i] == s2[j]:
                c[i][j] = c[i-1][j-1] + 1
            elif c[i-1][j] >= c[i][j-1]:
                c[i][j] = c[i-1][j]
            else:
                c[i][j] = c[i][j-1]
    return c[m-1][n-1]
''', '''    c = [[0 for j in range(n+1)] for i in range(m+1)]
    for i in range(1, m + 1):
        for j in range(1, n + 1):
            if s1[i - 1] == s2[j - 1]:
                c[i][j] = c[i-1][j-1] + 1
            else:
                c[i][j] = max(c[i-1][j], c[i][j-1])
    return c[m][n]
'''), file=S)
t('lcs-two-rows', ('''    c = [[0 for j in range(n+1)] for i in range(m+1)]
    for i in range(m):
        for j in range(n):
            if s1[i] == s2[j]:
                c[i][j] = c[i-1][j-1] + 1
            elif c[i-1][j] >= c[i][j-1]:
                c[i][j] = c[i-1][j]
            else:
                c[i][j] = c[i][j-1]
    return c[m-1][n-1]
''', '''    previous = [0] * (n + 1)
    for i in range(m):
        current = [0] * (n + 1)
        for j in range(n):
            if s1[i] == s2[j]:
                current[j + 1] = previous[j] + 1
            else:
                current[j + 1] = max(previous[j + 1], current[j])
        previous = current
    return previous[n]
'''), file=S)

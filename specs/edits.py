"""
Reference for the generators of edits (C20).
"""


def replchars(word, reptable):
    if len(word) >= 2:
        for pattern in reptable:
            for match in pattern.regexp.finditer(word):
                replaced = word[:match.start()] + pattern.replacement.replace('_', ' ') + word[match.end():]
                yield replaced
                if ' ' in replaced:
                    yield replaced.split(' ', 2)


def mapchars(word, maptable):
    def variants(text, start=0):
        if start < len(text):
            for options in maptable:
                for option in options:
                    pos = text.find(option, start)
                    if pos != -1:
                        for other in options:
                            if other != option:
                                replaced = text[:pos] + other + text[pos + len(option):]
                                yield replaced
                                yield from variants(replaced, pos + len(other))

    if len(word) >= 2 and maptable:
        yield from variants(word)


def swapchar(word):
    if len(word) < 2:
        return
    for i in range(len(word) - 1):
        yield word[:i] + word[i + 1] + word[i] + word[i + 2:]
    if len(word) == 4:
        yield word[1] + word[0] + word[-1] + word[-2]
    if len(word) == 5:
        yield word[1] + word[0] + word[2] + word[-1] + word[-2]
        yield word[0] + word[2] + word[1] + word[-1] + word[-2]


def longswapchar(word):
    for first in range(len(word) - 2):
        for second in range(first + 2, min(first + 4, len(word))):
            yield word[:first] + word[second] + word[first + 1:second] + word[first] + word[second + 1:]


def badcharkey(word, layout):
    for i, c in enumerate(word):
        if c != c.upper():
            yield word[:i] + c.upper() + word[i + 1:]
        if not layout:
            continue
        pos = layout.find(c)
        while pos != -1:
            if pos > 0 and layout[pos - 1] != '|':
                yield word[:i] + layout[pos - 1] + word[i + 1:]
            if pos + 1 < len(layout) and layout[pos + 1] != '|':
                yield word[:i] + layout[pos + 1] + word[i + 1:]
            pos = layout.find(c, pos + 1)


def extrachar(word):
    if len(word) >= 2:
        for i in range(len(word)):
            yield word[:i] + word[i + 1:]


def forgotchar(word, trystring):
    for c in trystring:
        for i in range(len(word) + 1):
            yield word[:i] + c + word[i:]


def movechar(word):
    if len(word) < 2:
        return
    for source in range(len(word)):
        for target in range(source + 3, min(len(word), source + 5)):
            yield word[:source] + word[source + 1:target] + word[source] + word[target:]
    for source in range(len(word)):
        for target in range(max(0, source - 3), source - 1):
            yield word[:target] + word[source] + word[target:source] + word[source + 1:]


def badchar(word, trystring):
    for c in trystring:
        for i in range(len(word)):
            if word[i] != c:
                yield word[:i] + c + word[i + 1:]


def doubletwochars(word):
    if len(word) >= 5:
        for i in range(3, len(word)):
            if word[i - 2] == word[i] and word[i - 3] == word[i - 1]:
                yield word[:i - 1] + word[i + 1:]


def twowords(word):
    for i in range(1, len(word)):
        yield [word[:i], word[i:]]

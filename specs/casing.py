"""
Reference for letter case handling (C10, C19).
"""

from spylls.hunspell.algo.capitalization import Type, Casing


def guess(self, word):
    if word.islower():
        return Type.NO
    if word.isupper():
        return Type.ALL
    if word[:1].isupper():
        if word[1:].islower():
            return Type.INIT
        return Type.HUHINIT
    return Type.HUH


def german_guess(self, word):
    if 'ß' in word and Casing.guess(self, word.replace('ß', '')) == Type.ALL:
        return Type.ALL
    return Casing.guess(self, word)


def german_lower(self, word):
    def sharp_s_variants(text, start=0):
        pos = text.find('ss', start)
        if pos == -1:
            return []
        replaced = text[:pos] + 'ß' + text[pos + 2:]
        return [replaced, *sharp_s_variants(replaced, pos + 1), *sharp_s_variants(text, pos + 2)]

    if 'SS' in word:
        return [variant for lowered in Casing.lower(self, word) for variant in [*sharp_s_variants(lowered), lowered]]
    return Casing.lower(self, word)


def lower(self, word):
    if not word or word[0] == 'İ':
        return []
    return [word.lower().replace('i̇', 'i')]


def upper(self, word):
    return word.upper()


def turkic_lower(self, word):
    return Casing.lower(self, word.translate(self.U2L))


def turkic_upper(self, word):
    return Casing.upper(self, word.translate(self.L2U))


def some_word(self, word):
    return len(word) > 0


def capitalize(self, word):
    if len(word) == 1:
        return [self.upper(word[0])]
    return [self.upper(word[0]) + rest for rest in self.lower(word[1:])]


def lowerfirst(self, word):
    return [letter + word[1:] for letter in self.lower(word[0])]


def variants(self, word):
    captype = self.guess(word)
    if captype == Type.INIT:
        return captype, [word, *self.lower(word)]
    if captype == Type.HUHINIT:
        return captype, [word, *self.lowerfirst(word)]
    if captype == Type.ALL:
        return captype, [word, *self.lower(word), *self.capitalize(word)]
    return captype, [word]


def corrections(self, word):
    captype = self.guess(word)
    if captype == Type.INIT or captype == Type.HUH:
        return captype, [word, *self.lower(word)]
    if captype == Type.HUHINIT:
        return captype, [word, *self.lowerfirst(word), *self.lower(word), *self.capitalize(word)]
    if captype == Type.ALL:
        return captype, [word, *self.lower(word), *self.capitalize(word)]
    return captype, [word]


def coerce(self, word, cap):
    if cap == Type.INIT or cap == Type.HUHINIT:
        return self.upper(word[:1]) + word[1:]
    if cap == Type.ALL:
        return self.upper(word)
    return word

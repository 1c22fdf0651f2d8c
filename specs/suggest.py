"""
Reference for suggestions (C14-C19, C21).
"""

import spylls.hunspell.algo.ngram_suggest as ngram
import spylls.hunspell.algo.phonet_suggest as phonet
import spylls.hunspell.algo.permutations as pmt
from spylls.hunspell.algo.capitalization import Type as CapType
from spylls.hunspell.algo.suggest import MultiWordSuggestion, Suggestion


def init(self, aff, dic, lookup):
    self.aff = aff
    self.dic = dic
    self.lookup = lookup
    bad = {*filter(None, [aff.FORBIDDENWORD, aff.NOSUGGEST, aff.ONLYINCOMPOUND])}
    self.words_for_ngram = [entry for entry in dic.words if not bad.intersection(entry.flags)]


def call(self, word):
    for suggestion in self.suggestions(word):
        yield suggestion.text


def dictionary_suggest(self, word):
    for text in self.suggester(word):
        yield text


def stringify(self, separator):
    return Suggestion(separator.join(self.words), self.source)


def use_dash(self):
    return 'a' in self.aff.TRY or '-' in self.aff.TRY


# ---- what is done with every suggestion found

def forbidden(self, text):
    return self.aff.FORBIDDENWORD and self.dic.has_flag(text, self.aff.FORBIDDENWORD, for_all=False)


def keeps_case(self, text):
    return self.aff.KEEPCASE and self.dic.has_flag(text, self.aff.KEEPCASE, for_all=False) and not (
        self.aff.CHECKSHARPS and 'ß' in text)


def second_word_case(text, word, captype):
    """case of the second word of the phrase, as in the word asked"""
    if captype not in (CapType.HUH, CapType.HUHINIT) or ' ' not in text:
        return text
    pos = text.find(' ')
    if (pos + 1 < len(text) and pos < len(word) and text[pos + 1] != word[pos] and
            text[pos + 1].upper() == word[pos]):
        return text[:pos + 1] + word[pos] + text[pos + 2:]
    return text


def cased(self, found, word, captype):
    if keeps_case(self, found):
        return found
    text = self.aff.casing.coerce(found, captype)
    if text != found and forbidden(self, text):
        text = found
    return second_word_case(text, word, captype)


def give(self, suggestion, word, captype, handled, check_inclusion):
    text = cased(self, suggestion.text, word, captype)
    if not forbidden(self, text):
        shown = self.aff.OCONV(text) if self.aff.OCONV else text
        if shown not in handled and not (
                check_inclusion and any(previous.lower() in shown.lower() for previous in handled)):
            handled.add(shown)
            yield suggestion.replace(text=shown)


# ---- the main procedure

def correct(self, word):
    return any(self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False,
                                      affix_forms=True, compound_forms=True))


def suggestions(self, word):
    handled = set()
    captype, variants = self.aff.casing.corrections(word)

    def found(suggestion):
        yield from give(self, suggestion, word, captype, handled, False)

    if self.aff.FORCEUCASE and captype == CapType.NO:
        for capitalized in self.aff.casing.capitalize(word):
            if correct(self, capitalized):
                yield from found(Suggestion(capitalized.capitalize(), 'forceucase'))
                return

    good_edits = False
    for idx, variant in enumerate(variants):
        if idx > 0 and correct(self, variant):
            yield from found(Suggestion(variant, 'case'))

        nocompound = False
        for suggestion in self.edit_suggestions(variant, found, limit=15, compounds=False):
            yield suggestion
            if suggestion.kind in ['spaceword', 'uppercase', 'replchars']:
                good_edits = True
            if suggestion.kind in ['uppercase', 'replchars', 'mapchars']:
                nocompound = True
            if suggestion.kind == 'spaceword':
                return

        if not nocompound:
            for suggestion in self.edit_suggestions(variant, found, limit=self.aff.MAXCPDSUGS, compounds=True):
                yield suggestion
                if suggestion.kind in ['spaceword', 'uppercase', 'replchars']:
                    good_edits = True

    if good_edits:
        return

    if '-' in word and not any('-' in text for text in handled):
        chunks = word.split('-')
        for idx, chunk in enumerate(chunks):
            if not correct(self, chunk):
                for text in self(chunk):
                    candidate = '-'.join([*chunks[:idx], text, *chunks[idx + 1:]])
                    if self.lookup(candidate, capitalization=True, allow_nosuggest=False):
                        yield from found(Suggestion(candidate, 'dashes'))
                break

    seen = 0
    for text in self.ngram_suggestions(word, handled=handled):
        for res in give(self, Suggestion(text, 'ngram'), word, captype, handled, True):
            seen += 1
            yield res
        if seen >= self.aff.MAXNGRAMSUGS:
            break

    seen = 0
    for text in self.phonet_suggestions(word):
        for res in give(self, Suggestion(text, 'phonet'), word, captype, handled, True):
            seen += 1
            yield res
        if seen >= 2:
            break


# ---- edits

def edit_suggestions(self, word, handle_found, *, compounds, limit):
    def good(text):
        return any(self.lookup.good_forms(text, capitalization=False, allow_nosuggest=False,
                                          affix_forms=not compounds, compound_forms=compounds))

    def candidates():
        for edit in self.edits(word):
            if isinstance(edit, MultiWordSuggestion):
                if all(good(text) for text in edit.words):
                    yield edit.stringify(' ')
                    if edit.allow_dash:
                        yield edit.stringify('-')
            elif good(edit.text):
                yield edit

    count = 0
    if limit > 0:
        for candidate in candidates():
            for res in handle_found(candidate):
                yield res
                count += 1
                if count >= limit:
                    return


def edits(self, word):
    yield Suggestion(self.aff.casing.upper(word), 'uppercase')
    for edit in pmt.replchars(word, self.aff.REP):
        if isinstance(edit, list):
            yield Suggestion(' '.join(edit), 'replchars')
            yield MultiWordSuggestion(edit, 'replchars', allow_dash=False)
        else:
            yield Suggestion(edit, 'replchars')
    for pair in pmt.twowords(word):
        yield Suggestion(' '.join(pair), 'spaceword')
        if use_dash(self):
            yield Suggestion('-'.join(pair), 'spaceword')
    for edit in pmt.mapchars(word, self.aff.MAP):
        yield Suggestion(edit, 'mapchars')
    for edit in pmt.swapchar(word):
        yield Suggestion(edit, 'swapchar')
    for edit in pmt.longswapchar(word):
        yield Suggestion(edit, 'longswapchar')
    for edit in pmt.badcharkey(word, self.aff.KEY):
        yield Suggestion(edit, 'badcharkey')
    for edit in pmt.extrachar(word):
        yield Suggestion(edit, 'extrachar')
    for edit in pmt.forgotchar(word, self.aff.TRY):
        yield Suggestion(edit, 'forgotchar')
    for edit in pmt.movechar(word):
        yield Suggestion(edit, 'movechar')
    for edit in pmt.badchar(word, self.aff.TRY):
        yield Suggestion(edit, 'badchar')
    for edit in pmt.doubletwochars(word):
        yield Suggestion(edit, 'doubletwochars')
    if not self.aff.NOSPLITSUGS:
        for pair in pmt.twowords(word):
            yield MultiWordSuggestion(pair, 'twowords', allow_dash=use_dash(self))


# ---- similarity

def ngram_suggestions(self, word, handled):
    if self.aff.MAXNGRAMSUGS != 0:
        yield from ngram.ngram_suggest(
            word.lower(), dictionary_words=self.words_for_ngram, prefixes=self.aff.PFX, suffixes=self.aff.SFX,
            known={text.lower() for text in handled}, maxdiff=self.aff.MAXDIFF, onlymaxdiff=self.aff.ONLYMAXDIFF,
            has_phonetic=self.aff.PHONE is not None)


def phonet_suggestions(self, word):
    if self.aff.PHONE:
        yield from phonet.phonet_suggest(word, dictionary_words=self.words_for_ngram, table=self.aff.PHONE)

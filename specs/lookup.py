"""
Reference for the word checker: what each step has to produce (see properties C05-C12).
"""

from spylls.hunspell.algo.capitalization import Type as CapType
from spylls.hunspell.algo.lookup import AffixForm, CompoundForm, CompoundPos
import re

import spylls.hunspell.algo.permutations as pmt


# ---- whole functions

def dictionary_lookup(self, word):
    return self.lookuper(word, capitalization=True, allow_nosuggest=True)


def call(self, word, *, capitalization, allow_nosuggest):
    if self.aff.FORBIDDENWORD and self.dic.has_flag(word, self.aff.FORBIDDENWORD, for_all=True):
        return False
    text = self.aff.ICONV(word) if self.aff.ICONV else word
    clean = text.translate(self.aff.IGNORE.tr) if self.aff.IGNORE else text
    return bool(re.fullmatch(r'\d+(\.\d+)?$', clean)) or any(
        all(any(self.good_forms(part, capitalization=capitalization, allow_nosuggest=allow_nosuggest,
                                affix_forms=True, compound_forms=True))
            for part in parts if part)
        for parts in self.break_word(clean, 0)
    )


def call_not_forbidden(self, word):
    return not (self.aff.FORBIDDENWORD and self.dic.has_flag(word, self.aff.FORBIDDENWORD, for_all=True))


def break_word(self, text, depth):
    if depth <= 10:
        yield [text]
        for pat in self.aff.BREAK:
            for m in pat.regexp.finditer(text):
                for breaking in self.break_word(text[m.end(1):], depth + 1):
                    yield [text[:m.start(1)], *breaking]


def good_forms(self, word, *, capitalization, allow_nosuggest, affix_forms, compound_forms):
    if capitalization:
        captype, variants = self.aff.casing.variants(word)
    else:
        captype, variants = self.aff.casing.guess(word), [word]

    for variant in variants:
        if affix_forms:
            for form in self.affix_forms(variant, captype=captype, allow_nosuggest=allow_nosuggest):
                if not sharps_veto(self, form, captype, word):
                    yield form
        if compound_forms:
            for form in self.compound_forms(variant, captype=captype, allow_nosuggest=allow_nosuggest):
                yield form


def sharps_veto(self, form, captype, word):
    return (self.aff.CHECKSHARPS and self.aff.KEEPCASE and captype == CapType.ALL and 'ß' in word and
            'ß' in form.in_dictionary.stem and self.aff.KEEPCASE in form.flags())


def affix_forms(self, word, captype, allow_nosuggest, prefix_flags, suffix_flags, forbidden_flags, compoundpos,
                with_forbidden):
    for form in self.produce_affix_forms(word, compoundpos=compoundpos, prefix_flags=prefix_flags,
                                         suffix_flags=suffix_flags, forbidden_flags=forbidden_flags):
        found = False
        if (not with_forbidden and self.aff.FORBIDDENWORD and (compoundpos or form.has_affixes()) and
                any(self.aff.FORBIDDENWORD in h.flags for h in self.dic.homonyms(form.stem))):
            return

        for homonym in self.dic.homonyms(form.stem):
            candidate = form.replace(in_dictionary=homonym)
            if good_candidate(self, candidate, captype, allow_nosuggest, compoundpos, with_forbidden):
                found = True
                yield candidate

        if compoundpos == CompoundPos.BEGIN and self.aff.FORCEUCASE and captype == CapType.INIT:
            for homonym in self.dic.homonyms(form.stem.lower()):
                candidate = form.replace(in_dictionary=homonym)
                if good_candidate(self, candidate, captype, allow_nosuggest, compoundpos, with_forbidden):
                    found = True
                    yield candidate

        if (not found and not compoundpos and captype == CapType.ALL and
                self.aff.casing.guess(word) == CapType.NO):
            for homonym in self.dic.homonyms(form.stem, ignorecase=True):
                candidate = form.replace(in_dictionary=homonym)
                if good_candidate(self, candidate, captype, allow_nosuggest, compoundpos, with_forbidden):
                    yield candidate


def good_candidate(self, candidate, captype, allow_nosuggest, compoundpos, with_forbidden):
    if not with_forbidden and self.aff.FORBIDDENWORD and self.aff.FORBIDDENWORD in candidate.in_dictionary.flags:
        return False
    return self.is_good_form(candidate, compoundpos=compoundpos, captype=captype, allow_nosuggest=allow_nosuggest)


def compound_forms(self, word, captype, allow_nosuggest):
    if is_forbidden_form(self, word, captype):
        return
    if self.aff.COMPOUNDBEGIN or self.aff.COMPOUNDFLAG:
        for compound in self.compounds_by_flags(word, captype=captype, depth=0, allow_nosuggest=allow_nosuggest):
            if not self.is_bad_compound(compound, captype):
                yield compound
    if self.aff.COMPOUNDRULE:
        for compound in self.compounds_by_rules(word, allow_nosuggest=allow_nosuggest):
            if not self.is_bad_compound(compound, captype):
                yield compound


def is_forbidden_form(self, word, captype):
    return self.aff.FORBIDDENWORD and any(
        self.aff.FORBIDDENWORD in form.flags()
        for form in self.affix_forms(word, captype=captype, allow_nosuggest=True, with_forbidden=True))


def produce_affix_forms(self, word, prefix_flags, suffix_flags, forbidden_flags, compoundpos):
    yield AffixForm(text=word, stem=word)

    suffixes = compoundpos is None or compoundpos == CompoundPos.END or bool(suffix_flags)
    prefixes = compoundpos is None or compoundpos == CompoundPos.BEGIN or bool(prefix_flags)

    if suffixes:
        for form in self.desuffix(word, required_flags=suffix_flags, forbidden_flags=forbidden_flags,
                                  nested=False, crossproduct=False):
            yield form
    if prefixes:
        for form in self.deprefix(word, required_flags=prefix_flags, forbidden_flags=forbidden_flags, nested=False):
            yield form
            if suffixes and form.prefix and form.prefix.crossproduct:
                for form2 in self.desuffix(form.stem, required_flags=suffix_flags, forbidden_flags=forbidden_flags,
                                           nested=False, crossproduct=True):
                    yield form2.replace(text=form.text, prefix=form.prefix)


def desuffix(self, word, required_flags, forbidden_flags, nested, crossproduct):
    for suffix in self.aff.suffixes_index.lookup(word[::-1]):
        if crossproduct and not suffix.crossproduct:
            continue
        if any(f not in suffix.flags for f in required_flags) or any(f in suffix.flags for f in forbidden_flags):
            continue
        stem = suffix.replace_regexp.sub(suffix.strip, word)
        if suffix.cond_regexp.search(stem):
            yield AffixForm(word, stem, suffix=suffix)
            if not nested:
                for form2 in self.desuffix(stem, required_flags=[suffix.flag, *required_flags],
                                           forbidden_flags=forbidden_flags, nested=True, crossproduct=crossproduct):
                    yield form2.replace(suffix2=suffix, text=word)


def deprefix(self, word, required_flags, forbidden_flags, nested):
    for prefix in self.aff.prefixes_index.lookup(word):
        if any(f not in prefix.flags for f in required_flags) or any(f in prefix.flags for f in forbidden_flags):
            continue
        stem = prefix.replace_regexp.sub(prefix.strip, word)
        if prefix.cond_regexp.search(stem):
            yield AffixForm(word, stem, prefix=prefix)
            if not nested and self.aff.COMPLEXPREFIXES:
                for form2 in self.deprefix(stem, required_flags=[prefix.flag, *required_flags],
                                           forbidden_flags=forbidden_flags, nested=True):
                    yield form2.replace(prefix2=prefix, text=word)


def compounds_by_flags(self, word_rest, *, captype, depth, allow_nosuggest):
    aff = self.aff
    forbidden = [aff.COMPOUNDFORBIDFLAG] if aff.COMPOUNDFORBIDFLAG else []
    permit = [aff.COMPOUNDPERMITFLAG] if aff.COMPOUNDPERMITFLAG else []

    if depth:
        for form in self.affix_forms(word_rest, captype=captype, compoundpos=CompoundPos.END, prefix_flags=permit,
                                     forbidden_flags=forbidden, allow_nosuggest=allow_nosuggest):
            yield CompoundForm([form])

    if len(word_rest) < aff.COMPOUNDMIN * 2 or (aff.COMPOUNDWORDMAX and depth + 1 >= aff.COMPOUNDWORDMAX):
        return

    place = CompoundPos.MIDDLE if depth else CompoundPos.BEGIN
    prefix_flags = permit if depth else []

    for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
        for form in self.affix_forms(word_rest[:pos], captype=captype, compoundpos=place, prefix_flags=prefix_flags,
                                     suffix_flags=permit, forbidden_flags=forbidden, allow_nosuggest=allow_nosuggest):
            for partial in self.compounds_by_flags(word_rest[pos:], captype=captype, depth=depth + 1,
                                                   allow_nosuggest=allow_nosuggest):
                yield CompoundForm([form, *partial.parts])

        if aff.SIMPLIFIEDTRIPLE and word_rest[:pos][-1] == word_rest[pos:][0]:
            for form in self.affix_forms(word_rest[:pos] + word_rest[:pos][-1], captype=captype, compoundpos=place,
                                         prefix_flags=prefix_flags, suffix_flags=permit, forbidden_flags=forbidden,
                                         allow_nosuggest=allow_nosuggest):
                for partial in self.compounds_by_flags(word_rest[pos:], captype=captype, depth=depth + 1,
                                                       allow_nosuggest=allow_nosuggest):
                    yield CompoundForm([form.replace(text=word_rest[:pos]), *partial.parts])


def compounds_by_rules(self, word_rest, prev_parts, rules, allow_nosuggest):
    aff = self.aff
    if rules is None:
        rules = aff.COMPOUNDRULE

    if prev_parts:
        for homonym in self.dic.homonyms(word_rest):
            if usable_in_rule(self, homonym, allow_nosuggest):
                if any(r.fullmatch([w.flags for w in [*prev_parts, homonym]]) for r in rules):
                    yield CompoundForm([AffixForm(word_rest, word_rest)])

    if len(word_rest) < aff.COMPOUNDMIN * 2 or \
            (aff.COMPOUNDWORDMAX and len(prev_parts) + 1 >= aff.COMPOUNDWORDMAX):
        return

    for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
        beg = word_rest[:pos]
        for homonym in self.dic.homonyms(beg):
            if usable_in_rule(self, homonym, allow_nosuggest):
                parts = [*prev_parts, homonym]
                good_rules = [r for r in rules if r.partial_match([w.flags for w in parts])]
                if good_rules:
                    for rest in self.compounds_by_rules(word_rest[pos:], rules=good_rules, prev_parts=parts,
                                                        allow_nosuggest=allow_nosuggest):
                        yield CompoundForm([AffixForm(beg, beg), *rest.parts])


def usable_in_rule(self, homonym, allow_nosuggest):
    return not (self.aff.FORBIDDENWORD and self.aff.FORBIDDENWORD in homonym.flags) and \
        (allow_nosuggest or not (self.aff.NOSUGGEST and self.aff.NOSUGGEST in homonym.flags))


def is_good_form(self, form, compoundpos, captype, allow_nosuggest):
    return bool(form.in_dictionary) and nosuggest_ok(self, form, allow_nosuggest) and \
        keepcase_ok(self, form, captype) and needaffix_ok(self, form) and affixes_listed(self, form) and \
        circumfix_ok(self, form) and onlyincompound_ok(self, form, compoundpos) and \
        compound_place_ok(self, form, compoundpos)


# ---- clauses of is_good_form

def nosuggest_ok(self, form, allow_nosuggest):
    return bool(allow_nosuggest) or self.aff.NOSUGGEST not in form.in_dictionary.flags


def keepcase_ok(self, form, captype):
    return captype == form.in_dictionary.captype or self.aff.KEEPCASE not in form.in_dictionary.flags or \
        bool(self.aff.CHECKSHARPS and 'ß' in form.in_dictionary.stem)


def needaffix_ok(self, form):
    if not self.aff.NEEDAFFIX:
        return True
    if form.suffix or form.prefix:
        return any(self.aff.NEEDAFFIX not in a.flags
                   for a in [form.prefix2, form.prefix, form.suffix, form.suffix2] if a)
    return self.aff.NEEDAFFIX not in form.in_dictionary.flags


def all_flags(form):
    flags = form.in_dictionary.flags
    if form.prefix:
        flags = flags.union(form.prefix.flags)
    if form.suffix:
        flags = flags.union(form.suffix.flags)
    return flags


def affixes_listed(self, form):
    flags = all_flags(form)
    return (not form.prefix or form.prefix.flag in flags) and (not form.suffix or form.suffix.flag in flags)


def circumfix_ok(self, form):
    if not self.aff.CIRCUMFIX:
        return True
    suffix_has = bool(form.suffix) and self.aff.CIRCUMFIX in form.suffix.flags
    prefix_has = bool(form.prefix) and self.aff.CIRCUMFIX in form.prefix.flags
    return prefix_has == suffix_has


def onlyincompound_ok(self, form, compoundpos):
    return bool(compoundpos) or self.aff.ONLYINCOMPOUND not in all_flags(form)


def compound_place_ok(self, form, compoundpos):
    if not compoundpos:
        return True
    flags = all_flags(form)
    return self.aff.COMPOUNDFLAG in flags or \
        (compoundpos == CompoundPos.BEGIN and self.aff.COMPOUNDBEGIN in flags) or \
        (compoundpos == CompoundPos.MIDDLE and self.aff.COMPOUNDMIDDLE in flags) or \
        (compoundpos == CompoundPos.END and self.aff.COMPOUNDEND in flags)


# ---- vetoes of compounds

def is_bad_compound(self, compound, captype):
    return forceucase_veto(self, compound, captype) or \
        any(boundary_veto(self, compound, idx, captype) for idx, _ in enumerate(compound.parts[:-1]))


def forceucase_veto(self, compound, captype):
    return bool(self.aff.FORCEUCASE) and captype not in [CapType.ALL, CapType.INIT] and \
        self.dic.has_flag(compound.parts[-1].text, self.aff.FORCEUCASE)


def boundary_veto(self, compound, idx, captype):
    aff = self.aff
    left_form = compound.parts[idx]
    right_form = compound.parts[idx + 1]
    left = left_form.text
    right = right_form.text

    if aff.COMPOUNDFORBIDFLAG and self.dic.has_flag(left, aff.COMPOUNDFORBIDFLAG):
        return True
    if any(self.affix_forms(left + ' ' + right, captype=captype, allow_nosuggest=True)):
        return True
    if aff.CHECKCOMPOUNDREP and any(
            isinstance(candidate, str) and any(self.affix_forms(candidate, captype=captype, allow_nosuggest=True))
            for candidate in pmt.replchars(left + right, aff.REP)):
        return True
    if aff.CHECKCOMPOUNDTRIPLE and (len(set(left[-2:] + right[:1])) == 1 or len(set(left[-1:] + right[:2])) == 1):
        return True
    if aff.CHECKCOMPOUNDCASE and (right[0] == right[0].upper() or left[-1] == left[-1].upper()) and \
            right[0] != '-' and left[-1] != '-':
        return True
    if any(pattern.match(left_form, right_form) for pattern in aff.CHECKCOMPOUNDPATTERN):
        return True
    return bool(aff.CHECKCOMPOUNDDUP) and left == right and idx == len(compound.parts) - 2


# ---- single requirements

def no_forbidden_flag(self):
    return not self.aff.FORBIDDENWORD


def entry_not_forbidden(self, with_forbidden, form):
    return with_forbidden or not self.aff.FORBIDDENWORD or self.aff.FORBIDDENWORD not in form.in_dictionary.flags


def stem_not_forbidden(self, with_forbidden, compoundpos, form):
    return with_forbidden or not self.aff.FORBIDDENWORD or not (compoundpos or form.suffix or form.prefix) or \
        not any(self.aff.FORBIDDENWORD in homonym.flags for homonym in self.dic.homonyms(form.stem))


def word_not_forbidden_form(self, word, captype, form):
    return not (self.aff.FORBIDDENWORD and any(
        known.in_dictionary and self.aff.FORBIDDENWORD in known.in_dictionary.flags
        for known in self.affix_forms(word, captype=captype, allow_nosuggest=True, with_forbidden=True)))


def part_not_forbidden(self, form):
    return any(not (self.aff.FORBIDDENWORD and self.aff.FORBIDDENWORD in homonym.flags)
               for homonym in self.dic.homonyms(form.parts[0].text))


def part_suggestable(self, allow_nosuggest, form):
    return any(allow_nosuggest or not (self.aff.NOSUGGEST and self.aff.NOSUGGEST in homonym.flags)
               for homonym in self.dic.homonyms(form.parts[0].text))


def compound_not_bad(self, captype, form):
    return not self.is_bad_compound(form, captype)


def in_dictionary(form):
    return bool(form.in_dictionary)


def stand_alone(compoundpos):
    return not compoundpos


def in_compound(compoundpos):
    return bool(compoundpos)


def unrestricted(self, form, compoundpos, captype, allow_nosuggest):
    """nothing but affixes is to be judged"""
    return bool(form.in_dictionary) and nosuggest_ok(self, form, allow_nosuggest) and \
        keepcase_ok(self, form, captype) and needaffix_ok(self, form) and \
        circumfix_ok(self, form) and onlyincompound_ok(self, form, compoundpos) and not compoundpos


def affixed_properly(self, form, compoundpos, allow_nosuggest):
    """nothing but restriction flags is to be judged"""
    return bool(form.in_dictionary) and nosuggest_ok(self, form, allow_nosuggest) and \
        affixes_listed(self, form) and not compoundpos


def usable_alone(self, form, compoundpos, captype, allow_nosuggest):
    """nothing but place in compound is to be judged"""
    return bool(form.in_dictionary) and nosuggest_ok(self, form, allow_nosuggest) and \
        keepcase_ok(self, form, captype) and needaffix_ok(self, form) and affixes_listed(self, form) and \
        circumfix_ok(self, form) and bool(compoundpos)

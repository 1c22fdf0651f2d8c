"""Behaviour-preserving edits of algo/lookup.py the checks must stay quiet after"""
F = 'algo/lookup.py'
TRIALS = []


def t(name, *pairs, file=F):
    TRIALS.append((name, file, pairs))


t('call-any', ('''        for parts in self.break_word(word):
            if all(is_correct(part) for part in parts if part):
                return True

        return False
''', '''        return any(
            all(is_correct(part) for part in parts if part)
            for parts in self.break_word(word)
        )
'''))
t('call-helper-prepare', ('''        if self.aff.ICONV:
            word = self.aff.ICONV(word)
''', '''        word = self._prepare(word)
'''), ('''        if self.aff.IGNORE:
            word = word.translate(self.aff.IGNORE.tr)

        # Numbers are allowed and not checked
''', '''        # Numbers are allowed and not checked
'''), ('''    def break_word(self, text, depth=0):
''', '''    def _prepare(self, word):
        if self.aff.ICONV:
            word = self.aff.ICONV(word)
        if self.aff.IGNORE:
            word = word.translate(self.aff.IGNORE.tr)
        return word

    def break_word(self, text, depth=0):
'''))
t('call-filter-parts', ('''            if all(is_correct(part) for part in parts if part):
                return True
''', '''            nonempty = [part for part in parts if part]
            if all(map(is_correct, nonempty)):
                return True
'''))
t('call-for-else', ('''            if all(is_correct(part) for part in parts if part):
                return True
''', '''            for part in parts:
                if part and not is_correct(part):
                    break
            else:
                return True
'''))
t('call-method-correct', ('''        def is_correct(w):
            return any(self.good_forms(w, capitalization=capitalization, allow_nosuggest=allow_nosuggest))
''', '''        def is_correct(w):
            for _ in self.good_forms(w, capitalization=capitalization, allow_nosuggest=allow_nosuggest):
                return True
            return False
'''))
t('call-partial', ('''        def is_correct(w):
            return any(self.good_forms(w, capitalization=capitalization, allow_nosuggest=allow_nosuggest))
''', '''        options = {'capitalization': capitalization, 'allow_nosuggest': allow_nosuggest}

        def is_correct(w):
            return next(self.good_forms(w, **options), None) is not None
'''))
t('call-forbidden-var', ('''        if self.aff.FORBIDDENWORD and self.dic.has_flag(word, self.aff.FORBIDDENWORD, for_all=True):
            return False
''', '''        forbidden = self.aff.FORBIDDENWORD
        if forbidden:
            if self.dic.has_flag(word, forbidden, for_all=True):
                return False
'''))
t('break-comprehension', ('''                start = text[:m.start(1)]
                rest = text[m.end(1):]
                for breaking in self.break_word(rest, depth=depth+1):
                    yield [start, *breaking]
''', '''                begin, end = m.span(1)
                for breaking in self.break_word(text[end:], depth + 1):
                    yield [text[:begin]] + breaking
'''))
t('break-invert', ('''        if depth > 10:
            return

        yield [text]
        for pat in self.aff.BREAK:
            for m in pat.regexp.finditer(text):
                start = text[:m.start(1)]
                rest = text[m.end(1):]
                for breaking in self.break_word(rest, depth=depth+1):
                    yield [start, *breaking]
''', '''        if depth <= 10:
            yield [text]
            matches = (m for pat in self.aff.BREAK for m in pat.regexp.finditer(text))
            for m in matches:
                yield from ([text[:m.start(1)], *tail] for tail in self.break_word(text[m.end(1):], depth=depth+1))
'''))
t('break-helper', ('''                start = text[:m.start(1)]
                rest = text[m.end(1):]
                for breaking in self.break_word(rest, depth=depth+1):
                    yield [start, *breaking]
''', '''                yield from self._break_at(text, m, depth)
'''), ('''    def good_forms(self, word: str, *,
''', '''    def _break_at(self, text, match, depth):
        head = text[:match.start(1)]
        tail = text[match.end(1):]
        for breaking in self.break_word(tail, depth=depth + 1):
            yield [head, *breaking]

    def good_forms(self, word: str, *,
'''))
t('good-helper-sharps', ('''                    if (self.aff.CHECKSHARPS and self.aff.KEEPCASE and  # pylint: disable=too-many-boolean-expressions
                            'ß' in form.in_dictionary.stem and self.aff.KEEPCASE in form.flags() and   # type: ignore
                            captype == CapType.ALL and 'ß' in word):
                        continue

                    yield form
''', '''                    if not self._violates_sharps(form, word, captype):
                        yield form
'''), ('''    def affix_forms(self,
''', '''    def _violates_sharps(self, form, word, captype):
        aff = self.aff
        if not (aff.CHECKSHARPS and aff.KEEPCASE):
            return False
        if captype != CapType.ALL or 'ß' not in word:
            return False
        return 'ß' in form.in_dictionary.stem and aff.KEEPCASE in form.flags()

    def affix_forms(self,
'''))
t('good-generator-chain', ('''            if compound_forms:
                yield from self.compound_forms(variant, captype=captype, allow_nosuggest=allow_nosuggest)
''', '''            if not compound_forms:
                continue

            for compound in self.compound_forms(variant, captype=captype, allow_nosuggest=allow_nosuggest):
                yield compound
'''))
t('good-captype-first', ('''        if capitalization:
            captype, variants = self.aff.casing.variants(word)
        else:
            captype = self.aff.casing.guess(word)
            variants = [word]
''', '''        casing = self.aff.casing
        if not capitalization:
            captype, variants = casing.guess(word), [word]
        else:
            captype, variants = casing.variants(word)
'''))
t('affix-helper-candidates', ('''            for homonym in homonyms:
                candidate = form.replace(in_dictionary=homonym)
                if is_good_form(candidate):
                    found = True
                    yield candidate

            # If the compound should be''', '''            for candidate in candidates(form, homonyms):
                found = True
                yield candidate

            # If the compound should be''')) if False else None
t('affix-helper', ('''        for form in self.produce_affix_forms(word, compoundpos=compoundpos,
                                             prefix_flags''', '''        def good_candidates(form, homonyms):
            for homonym in homonyms:
                candidate = form.replace(in_dictionary=homonym)
                if is_good_form(candidate):
                    yield candidate

        for form in self.produce_affix_forms(word, compoundpos=compoundpos,
                                             prefix_flags'''), ('''                for homonym in self.dic.homonyms(form.stem, ignorecase=True):
                    candidate = form.replace(in_dictionary=homonym)
                    if is_good_form(candidate):
                        yield candidate
''', '''                yield from good_candidates(form, self.dic.homonyms(form.stem, ignorecase=True))
'''), ('''                for homonym in self.dic.homonyms(form.stem.lower()):
                    candidate = form.replace(in_dictionary=homonym)
                    if is_good_form(candidate):
                        found = True
                        yield candidate
''', '''                for candidate in good_candidates(form, self.dic.homonyms(form.stem.lower())):
                    found = True
                    yield candidate
'''))
t('affix-list-good', ('''                for homonym in self.dic.homonyms(form.stem, ignorecase=True):
                    candidate = form.replace(in_dictionary=homonym)
                    if is_good_form(candidate):
                        yield candidate
''', '''                candidates = (form.replace(in_dictionary=h) for h in self.dic.homonyms(form.stem, ignorecase=True))
                yield from filter(is_good_form, candidates)
'''))
t('affix-forbidden-method', ('''        def is_good_form(form, **kwarg):
            if not with_forbidden and self.aff.FORBIDDENWORD and self.aff.FORBIDDENWORD in form.in_dictionary.flags:
                return False

            return self.is_good_form(form, compoundpos=compoundpos,
                                     captype=captype,
                                     allow_nosuggest=allow_nosuggest,
                                     **kwarg)
''', '''        def is_forbidden(entry):
            return self.aff.FORBIDDENWORD and self.aff.FORBIDDENWORD in entry.flags

        def is_good_form(form):
            if is_forbidden(form.in_dictionary) and not with_forbidden:
                return False
            return self.is_good_form(form, compoundpos, captype, allow_nosuggest=allow_nosuggest)
'''), ('''                    any(self.aff.FORBIDDENWORD in homonym.flags for homonym in homonyms)):
''', '''                    any(is_forbidden(homonym) for homonym in homonyms)):
'''))
t('affix-found-nested', ('''            if found or compoundpos or captype != CapType.ALL:
                continue

''', ''), ('''            if self.aff.casing.guess(word) == CapType.NO:
''', '''            if (not found and not compoundpos and captype == CapType.ALL and
                    self.aff.casing.guess(word) == CapType.NO):
'''))
t('affix-good-list', ('''            for homonym in homonyms:
                candidate = form.replace(in_dictionary=homonym)
                if is_good_form(candidate):
                    found = True
                    yield candidate
''', '''            good = [c for c in (form.replace(in_dictionary=h) for h in homonyms) if is_good_form(c)]
            found = bool(good)
            yield from good
'''))
t('compound-helper-forbidden', ('''        if self.aff.FORBIDDENWORD and any(self.aff.FORBIDDENWORD in candidate.flags()
                                          for candidate in
                                          self.affix_forms(word, captype=captype, with_forbidden=True)):
            return
''', '''        if self._has_forbidden_form(word, captype):
            return
'''), ('''    def compound_forms(self, word: str, captype: CapType, allow''', '''    def _has_forbidden_form(self, word, captype):
        flag = self.aff.FORBIDDENWORD
        if not flag:
            return False
        for form in self.affix_forms(word, captype=captype, with_forbidden=True):
            if flag in form.flags():
                return True
        return False

    def compound_forms(self, word: str, captype: CapType, allow'''))
t('compound-chain', ('''        if self.aff.COMPOUNDBEGIN or self.aff.COMPOUNDFLAG:
            for compound in self.compounds_by_flags(word, captype=captype, allow_nosuggest=allow_nosuggest):
                if not self.is_bad_compound(compound, captype):
                    yield compound
''', '''        def good(compounds):
            return (compound for compound in compounds if not self.is_bad_compound(compound, captype))

        if self.aff.COMPOUNDFLAG or self.aff.COMPOUNDBEGIN:
            yield from good(self.compounds_by_flags(word, captype=captype, allow_nosuggest=allow_nosuggest))
'''), ('''            for compound in self.compounds_by_rules(word, allow_nosuggest=allow_nosuggest):
                if not self.is_bad_compound(compound, captype):
                    yield compound
''', '''            yield from good(self.compounds_by_rules(word, allow_nosuggest=allow_nosuggest))
'''))
t('compound-collect', ('''        if self.aff.COMPOUNDBEGIN or self.aff.COMPOUNDFLAG:
            for compound in self.compounds_by_flags(word, captype=captype, allow_nosuggest=allow_nosuggest):
                if not self.is_bad_compound(compound, captype):
                    yield compound
''', '''        sources = []
        if self.aff.COMPOUNDBEGIN or self.aff.COMPOUNDFLAG:
            sources.append(self.compounds_by_flags(word, captype=captype, allow_nosuggest=allow_nosuggest))
'''), ('''            for compound in self.compounds_by_rules(word, allow_nosuggest=allow_nosuggest):
                if not self.is_bad_compound(compound, captype):
                    yield compound
''', '''            sources.append(self.compounds_by_rules(word, allow_nosuggest=allow_nosuggest))

        for source in sources:
            for compound in source:
                if self.is_bad_compound(compound, captype):
                    continue
                yield compound
'''))
t('produce-bools', ('''        suffix_allowed = compoundpos in [None, CompoundPos.END] or suffix_flags
        prefix_allowed = compoundpos in [None, CompoundPos.BEGIN] or prefix_flags
''', '''        suffix_allowed = compoundpos is None or compoundpos == CompoundPos.END or bool(suffix_flags)
        prefix_allowed = not compoundpos or compoundpos == CompoundPos.BEGIN or len(prefix_flags) > 0
'''))
t('produce-loop', ('''                if suffix_allowed and form.prefix and form.prefix.crossproduct:
                    yield from (
                        form2.replace(text=form.text, prefix=form.prefix)
                        for form2 in self.desuffix(form.stem,
                                                   required_flags=suffix_flags,
                                                   forbidden_flags=forbidden_flags,
                                                   crossproduct=True)
                    )
''', '''                if not suffix_allowed:
                    continue
                prefix = form.prefix
                if not prefix or not prefix.crossproduct:
                    continue

                for inner in self.desuffix(form.stem, suffix_flags, forbidden_flags, crossproduct=True):
                    yield inner.replace(prefix=prefix, text=form.text)
'''))
t('desuffix-inline-good', ('''        def good_suffix(suffix):
            return (
                (not crossproduct or suffix.crossproduct) and
                all(f in suffix.flags for f in required_flags) and
                all(f not in suffix.flags for f in forbidden_flags)
            )

        possible_suffixes = (
            suffix
            for suffix in self.aff.suffixes_index.lookup(word[::-1])
            if good_suffix(suffix)
        )

        for suffix in possible_suffixes:
''', '''        for suffix in self.aff.suffixes_index.lookup(word[::-1]):
            if crossproduct and not suffix.crossproduct:
                continue
            if any(f not in suffix.flags for f in required_flags):
                continue
            if any(f in suffix.flags for f in forbidden_flags):
                continue

'''))
t('desuffix-sets', ('''                all(f in suffix.flags for f in required_flags) and
                all(f not in suffix.flags for f in forbidden_flags)
''', '''                suffix.flags.issuperset(required_flags) and
                suffix.flags.isdisjoint(forbidden_flags)
'''))
t('desuffix-sets2', ('''                all(f in suffix.flags for f in required_flags) and
                all(f not in suffix.flags for f in forbidden_flags)
''', '''                set(required_flags) <= suffix.flags and
                not suffix.flags.intersection(forbidden_flags)
'''))
t('desuffix-sets3', ('''                all(f in suffix.flags for f in required_flags) and
                all(f not in suffix.flags for f in forbidden_flags)
''', '''                not set(required_flags) - suffix.flags and
                not (set(forbidden_flags) & suffix.flags)
'''))
t('desuffix-filter', ('''        possible_suffixes = (
            suffix
            for suffix in self.aff.suffixes_index.lookup(word[::-1])
            if good_suffix(suffix)
        )

        for suffix in possible_suffixes:
''', '''        for suffix in filter(good_suffix, self.aff.suffixes_index.lookup(word[::-1])):
'''))
t('desuffix-strip-slice', ('''            stem = suffix.replace_regexp.sub(lambda _: suffix.strip, word)
''', '''            strip = suffix.strip
            stem = suffix.replace_regexp.sub(lambda match: strip, word)
'''))
t('desuffix-cond-invert', ('''            if not suffix.cond_regexp.search(stem):
                continue

            yield AffixForm(word, stem, suffix=suffix)

            if not nested:
                for form2 in self.desuffix(stem,
                                           required_flags=[suffix.flag, *required_flags],
                                           forbidden_flags=forbidden_flags,
                                           nested=True,
                                           crossproduct=crossproduct):
                    yield form2.replace(suffix2=suffix, text=word)
''', '''            if suffix.cond_regexp.search(stem):
                yield AffixForm(text=word, stem=stem, suffix=suffix)

                if nested:
                    continue

                required = [suffix.flag] + required_flags
                for inner in self.desuffix(stem, required, forbidden_flags, nested=True, crossproduct=crossproduct):
                    yield inner.replace(text=word, suffix2=suffix)
'''))
t('shared-flag-helper', ('''        def good_suffix(suffix):
            return (
                (not crossproduct or suffix.crossproduct) and
                all(f in suffix.flags for f in required_flags) and
                all(f not in suffix.flags for f in forbidden_flags)
            )
''', '''        def good_suffix(suffix):
            return (
                (not crossproduct or suffix.crossproduct) and
                self._flags_match(suffix, required_flags, forbidden_flags)
            )
'''), ('''            return all(f in prefix.flags for f in required_flags) and \\
                   all(f not in prefix.flags for f in forbidden_flags)
''', '''            return self._flags_match(prefix, required_flags, forbidden_flags)
'''), ('''    def desuffix(self, word: str,
''', '''    @staticmethod
    def _flags_match(affix, required, forbidden):
        return all(f in affix.flags for f in required) and all(f not in affix.flags for f in forbidden)

    def desuffix(self, word: str,
'''))
t('module-flag-helper', ('''            return all(f in prefix.flags for f in required_flags) and \\
                   all(f not in prefix.flags for f in forbidden_flags)
''', '''            return affix_flags_ok(prefix.flags, required_flags, forbidden_flags)
'''), ('''class Lookup:
''', '''def affix_flags_ok(flags, required, forbidden):
    for flag in required:
        if flag not in flags:
            return False
    for flag in forbidden:
        if flag in flags:
            return False
    return True


class Lookup:
'''))
t('isgood-reorder', ('''        # Check affix flags
        if form.prefix and form.prefix.flag not in all_flags:
            return False
        if form.suffix and form.suffix.flag not in all_flags:
            return False
''', '')) if False else None
t('isgood-any-affix', ('''        if form.prefix and form.prefix.flag not in all_flags:
            return False
        if form.suffix and form.suffix.flag not in all_flags:
            return False
''', '''        for affix in (form.prefix, form.suffix):
            if affix and affix.flag not in all_flags:
                return False
'''))
t('isgood-needaffix', ('''        if aff.NEEDAFFIX:
            if aff.NEEDAFFIX in root_flags and not form.has_affixes():
                return False
            if form.has_affixes() and all(aff.NEEDAFFIX in a.flags for a in form.all_affixes()):
                return False
''', '''        if aff.NEEDAFFIX:
            if form.has_affixes():
                if all(aff.NEEDAFFIX in a.flags for a in form.all_affixes()):
                    return False
            elif aff.NEEDAFFIX in root_flags:
                return False
'''))
t('isgood-circumfix', ('''            suffix_has = form.suffix and aff.CIRCUMFIX in form.suffix.flags
            prefix_has = form.prefix and aff.CIRCUMFIX in form.prefix.flags
            # "if prefix has circumfix flag, suffix should have it too, and vice versa"
            if bool(prefix_has) != bool(suffix_has):
                return False
''', '')) if False else None
t('isgood-table', ('''        if compoundpos == CompoundPos.BEGIN:
            return aff.COMPOUNDBEGIN in all_flags
        if compoundpos == CompoundPos.END:
            return aff.COMPOUNDEND in all_flags
        if compoundpos == CompoundPos.MIDDLE:
            return aff.COMPOUNDMIDDLE in all_flags

        # shoulnd't happen
        return False
''', '''        position_flags = {
            CompoundPos.BEGIN: aff.COMPOUNDBEGIN,
            CompoundPos.MIDDLE: aff.COMPOUNDMIDDLE,
            CompoundPos.END: aff.COMPOUNDEND,
        }
        return position_flags[compoundpos] in all_flags
'''))
t('isgood-elif', ('''        if not compoundpos:
            return aff.ONLYINCOMPOUND not in all_flags

        if aff.COMPOUNDFLAG in all_flags:
            return True
        if compoundpos == CompoundPos.BEGIN:
            return aff.COMPOUNDBEGIN in all_flags
        if compoundpos == CompoundPos.END:
            return aff.COMPOUNDEND in all_flags
        if compoundpos == CompoundPos.MIDDLE:
            return aff.COMPOUNDMIDDLE in all_flags
''', '''        if compoundpos is None:
            return aff.ONLYINCOMPOUND not in all_flags
        return self._fits_position(compoundpos, all_flags)

    def _fits_position(self, compoundpos, all_flags):
        aff = self.aff
        if aff.COMPOUNDFLAG in all_flags:
            return True
        if compoundpos == CompoundPos.BEGIN:
            required = aff.COMPOUNDBEGIN
        elif compoundpos == CompoundPos.MIDDLE:
            required = aff.COMPOUNDMIDDLE
        elif compoundpos == CompoundPos.END:
            required = aff.COMPOUNDEND
        else:
            return False
        return required in all_flags

    def _unused(self):
'''))
t('isgood-keepcase', ('''        if captype != form.in_dictionary.captype and aff.KEEPCASE in root_flags:
''', '''        if aff.KEEPCASE in root_flags and form.in_dictionary.captype != captype:
'''))
t('flags-cut-helper', ('''        forbidden_flags = [aff.COMPOUNDFORBIDFLAG] if aff.COMPOUNDFORBIDFLAG else []
        permitflags = [aff.COMPOUNDPERMITFLAG] if aff.COMPOUNDPERMITFLAG else []
''', '''        forbidden_flags = []
        permitflags = []
        if aff.COMPOUNDFORBIDFLAG:
            forbidden_flags.append(aff.COMPOUNDFORBIDFLAG)
        if aff.COMPOUNDPERMITFLAG:
            permitflags.append(aff.COMPOUNDPERMITFLAG)
'''))
t('flags-filter-none', ('''        forbidden_flags = [aff.COMPOUNDFORBIDFLAG] if aff.COMPOUNDFORBIDFLAG else []
        permitflags = [aff.COMPOUNDPERMITFLAG] if aff.COMPOUNDPERMITFLAG else []
''', '''        forbidden_flags = [*filter(None, [aff.COMPOUNDFORBIDFLAG])]
        permitflags = [flag for flag in [aff.COMPOUNDPERMITFLAG] if flag]
'''))
t('flags-parts-helper', ('''            for form in self.affix_forms(beg, captype=captype, compoundpos=compoundpos,
                                         prefix_flags=prefix_flags,
                                         suffix_flags=permitflags,
                                         forbidden_flags=forbidden_flags,
                                         allow_nosuggest=allow_nosuggest):
                for partial in self.compounds_by_flags(rest, captype=captype, depth=depth+1,
                                                       allow_nosuggest=allow_nosuggest):
                    yield CompoundForm([form, *partial.parts])
''', '''            for form in part_forms(beg):
                for partial in rest_compounds(rest):
                    yield CompoundForm([form, *partial.parts])
'''), ('''                for form in self.affix_forms(beg + beg[-1], captype=captype, compoundpos=compoundpos,
                                             prefix_flags=prefix_flags,
                                             suffix_flags=permitflags,
                                             forbidden_flags=forbidden_flags,
                                             allow_nosuggest=allow_nosuggest):
                    for partial in self.compounds_by_flags(rest, captype=captype, depth=depth+1,
                                                           allow_nosuggest=allow_nosuggest):
                        yield CompoundForm([form.replace(text=beg), *partial.parts])
''', '''                for form in part_forms(beg + beg[-1]):
                    for partial in rest_compounds(rest):
                        yield CompoundForm([form.replace(text=beg), *partial.parts])
'''), ('''        for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
            beg = word_rest[0:pos]
            rest = word_rest[pos:]
''', '''        def part_forms(text):
            return self.affix_forms(text, captype=captype, compoundpos=compoundpos, prefix_flags=prefix_flags,
                                    suffix_flags=permitflags, forbidden_flags=forbidden_flags,
                                    allow_nosuggest=allow_nosuggest)

        def rest_compounds(text):
            return self.compounds_by_flags(text, captype=captype, depth=depth + 1, allow_nosuggest=allow_nosuggest)

        for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
            beg, rest = word_rest[:pos], word_rest[pos:]
'''))
t('flags-while', ('''        for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
            beg = word_rest[0:pos]
            rest = word_rest[pos:]

            for form in self.affix_forms(beg''', '''        last = len(word_rest) - aff.COMPOUNDMIN
        for pos in range(aff.COMPOUNDMIN, last + 1):
            beg = word_rest[:pos]
            rest = word_rest[pos:]

            for form in self.affix_forms(beg'''))
t('flags-limit-split', ('''        if len(word_rest) < aff.COMPOUNDMIN * 2 or (aff.COMPOUNDWORDMAX and depth + 1 >= aff.COMPOUNDWORDMAX):
            return

        compoundpos = CompoundPos.MIDDLE if depth else CompoundPos.BEGIN
        prefix_flags = [] if compoundpos == CompoundPos.BEGIN else permitflags
''', '''        if 2 * aff.COMPOUNDMIN > len(word_rest):
            return
        if aff.COMPOUNDWORDMAX and depth >= aff.COMPOUNDWORDMAX - 1:
            return

        if depth == 0:
            compoundpos = CompoundPos.BEGIN
            prefix_flags = []
        else:
            compoundpos = CompoundPos.MIDDLE
            prefix_flags = permitflags
'''))
t('flags-product', ('''                for partial in self.compounds_by_flags(rest, captype=captype, depth=depth+1,
                                                       allow_nosuggest=allow_nosuggest):
                    yield CompoundForm([form, *partial.parts])

''', '''                partials = self.compounds_by_flags(rest, captype=captype, depth=depth+1,
                                                   allow_nosuggest=allow_nosuggest)
                yield from (CompoundForm([form] + partial.parts) for partial in partials)

'''))
t('rules-helper-flagsets', ('''                parts = [*prev_parts, homonym]
                flag_sets = [w.flags for w in parts]
                if any(r.fullmatch(flag_sets) for r in rules):
                    yield CompoundForm([AffixForm(word_rest, word_rest)])
''', '''                flag_sets = [w.flags for w in prev_parts] + [homonym.flags]
                for rule in rules:
                    if rule.fullmatch(flag_sets):
                        yield CompoundForm([AffixForm(word_rest, word_rest)])
                        break
'''))
t('rules-good-list', ('''            for homonym in self.dic.homonyms(text):
                if aff.FORBIDDENWORD and aff.FORBIDDENWORD in homonym.flags:
                    continue
                if not allow_nosuggest and aff.NOSUGGEST and aff.NOSUGGEST in homonym.flags:
                    continue
                yield homonym
''', '''            banned = [aff.FORBIDDENWORD]
            if not allow_nosuggest:
                banned.append(aff.NOSUGGEST)
            return [homonym for homonym in self.dic.homonyms(text)
                    if not any(flag and flag in homonym.flags for flag in banned)]
'''))
t('rules-default', ('''        if rules is None:
            rules = self.aff.COMPOUNDRULE
''', '''        rules = aff.COMPOUNDRULE if rules is None else rules
'''))
t('rules-filter', ('''                compoundrules = [r for r in rules if r.partial_match(flag_sets)]
                if compoundrules:
                    for rest in self.compounds_by_rules(word_rest[pos:], rules=compoundrules, prev_parts=parts,
                                                        allow_nosuggest=allow_nosuggest):
                        yield CompoundForm([AffixForm(beg, beg), *rest.parts])
''', '''                compoundrules = list(filter(lambda rule: rule.partial_match(flag_sets), rules))
                if not compoundrules:
                    continue
                first = AffixForm(text=beg, stem=beg)
                tails = self.compounds_by_rules(word_rest[pos:], parts, compoundrules, allow_nosuggest)
                for tail in tails:
                    yield CompoundForm([first, *tail.parts])
'''))
t('bad-zip', ('''        for idx, left_paradigm in enumerate(compound.parts[:-1]):
            left = left_paradigm.text
            right_paradigm = compound.parts[idx+1]
            right = right_paradigm.text
''', '''        for idx, (left_paradigm, right_paradigm) in enumerate(zip(compound.parts, compound.parts[1:])):
            left = left_paradigm.text
            right = right_paradigm.text
'''))
t('bad-range', ('''        for idx, left_paradigm in enumerate(compound.parts[:-1]):
            left = left_paradigm.text
            right_paradigm = compound.parts[idx+1]
            right = right_paradigm.text
''', '''        parts = compound.parts
        for idx in range(len(parts) - 1):
            left_paradigm, right_paradigm = parts[idx], parts[idx + 1]
            left, right = left_paradigm.text, right_paradigm.text
'''))
t('bad-helper-border', ('''        for idx, left_paradigm in enumerate(compound.parts[:-1]):
            left = left_paradigm.text
            right_paradigm = compound.parts[idx+1]
            right = right_paradigm.text

''', '''        last = len(compound.parts) - 2
        return any(
            self._is_bad_border(left, compound.parts[idx + 1], captype, idx == last)
            for idx, left in enumerate(compound.parts[:-1])
        )

    def _is_bad_border(self, left_paradigm, right_paradigm, captype, is_last):
        aff = self.aff
        left = left_paradigm.text
        right = right_paradigm.text

        if True:
'''), ('''                if left == right and idx == len(compound.parts) - 2:
''', '''                if left == right and is_last:
'''))
t('bad-triple-helper', ('''                if len(set(left[-2:] + right[:1])) == 1 or len(set(left[-1:] + right[:2])) == 1:
                    return True
''', '''                for border in (left[-2:] + right[:1], left[-1:] + right[:2]):
                    if len(set(border)) == 1:
                        return True
'''))
t('bad-rep-any', ('''                for candidate in pmt.replchars(left + right, aff.REP):
                    if isinstance(candidate, str) and any(self.affix_forms(candidate, captype=captype)):
                        return True
''', '''                candidates = pmt.replchars(left + right, aff.REP)
                if any(isinstance(candidate, str) and any(self.affix_forms(candidate, captype=captype))
                       for candidate in candidates):
                    return True
'''))
t('bad-case', ('''                right_c = right[0]
                left_c = left[-1]
                if (right_c == right_c.upper() or left_c == left_c.upper()) and right_c != '-' and left_c != '-':
                    return True
''', '''                chars = (left[-1], right[0])
                if '-' not in chars and any(c == c.upper() for c in chars):
                    return True
'''))
t('bad-and', ('''            if aff.COMPOUNDFORBIDFLAG:
                if self.dic.has_flag(left, aff.COMPOUNDFORBIDFLAG):
                    return True

''', '''            if aff.COMPOUNDFORBIDFLAG and self.dic.has_flag(left, aff.COMPOUNDFORBIDFLAG):
                return True

'''), ('''            if aff.CHECKCOMPOUNDPATTERN:
                if any(pattern.match(left_paradigm, right_paradigm) for pattern in aff.CHECKCOMPOUNDPATTERN):
                    return True
''', '''            for pattern in aff.CHECKCOMPOUNDPATTERN:
                if pattern.match(left_paradigm, right_paradigm):
                    return True
'''))
t('bad-fstring', ('''            if any(self.affix_forms(left + ' ' + right, captype=captype)):
''', '''            phrase = f'{left} {right}'
            if next(self.affix_forms(phrase, captype=captype), None):
'''))
t('form-flags', ('''        flags = self.in_dictionary.flags if self.in_dictionary else set()
        if self.prefix:
            flags = flags.union(self.prefix.flags)
        if self.suffix:
            flags = flags.union(self.suffix.flags)

        return flags
''', '''        sources = [self.in_dictionary, self.prefix, self.suffix]
        return set().union(*(source.flags for source in sources if source))
'''))
t('form-flags-loop', ('''        flags = self.in_dictionary.flags if self.in_dictionary else set()
        if self.prefix:
            flags = flags.union(self.prefix.flags)
        if self.suffix:
            flags = flags.union(self.suffix.flags)

        return flags
''', '''        flags = set(self.in_dictionary.flags) if self.in_dictionary else set()
        for affix in (self.prefix, self.suffix):
            if affix:
                flags |= affix.flags
        return flags
'''))
t('form-affixes', ('''        return [*filter(None, [self.prefix2, self.prefix, self.suffix, self.suffix2])]
''', '''        return [affix for affix in (self.prefix2, self.prefix, self.suffix, self.suffix2) if affix]
'''))
t('form-has', ('''        return self.suffix or self.prefix
''', '''        return self.prefix is not None or self.suffix is not None
'''))
t('init-cache', ('''        self.aff = aff
        self.dic = dic

    def __call__''', '''        self.aff = aff
        self.dic = dic
        self.forbidden_flag = aff.FORBIDDENWORD

    def __call__'''), ('''        if self.aff.FORBIDDENWORD and self.dic.has_flag(word, self.aff.FORBIDDENWORD, for_all=True):
            return False
''', '''        if self.forbidden_flag and self.dic.has_flag(word, self.forbidden_flag, for_all=True):
            return False
'''))
t('dic-has-flag-loop', ('''        homonyms = self.homonyms(stem)
        if not homonyms:
            return False
        if for_all:
            return all(flag in homonym.flags for homonym in homonyms)
        return any(flag in homonym.flags for homonym in homonyms)
''', '''        homonyms = self.homonyms(stem)
        check = all if for_all else any
        return bool(homonyms) and check(flag in homonym.flags for homonym in homonyms)
'''), file='data/dic.py')
t('dic-homonyms', ('''        if ignorecase:
            return self.lowercase_index.get(stem, [])
''', '''        index = self.lowercase_index if ignorecase else self.index
        if index is None:
            return []
'''), ('''        return self.index.get(stem, [])
''', '''        return index.get(stem, [])
'''), file='data/dic.py') if False else None
t('dic-homonyms2', ('''        if ignorecase:
            return self.lowercase_index.get(stem, [])
        return self.index.get(stem, [])
''', '''        index = self.lowercase_index if ignorecase else self.index
        return index.get(stem, [])
'''), file='data/dic.py')
t('dic-homonyms3', ('''        if ignorecase:
            return self.lowercase_index.get(stem, [])
        return self.index.get(stem, [])
''', '''        index = self.lowercase_index if ignorecase else self.index
        if stem in index:
            return index[stem]
        return []
'''), file='data/dic.py')

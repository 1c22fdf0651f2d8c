"""Wrong edits of algo/lookup.py (and what it relies on) the check of the named property must object to"""
F = 'algo/lookup.py'
DIC = 'data/dic.py'
CAP = 'algo/capitalization.py'
AFF = 'data/aff.py'
TRIE = 'algo/trie.py'
BUGS = []


def b(prop, name, *pairs, file=F):
    BUGS.append((prop, name, file, pairs))


# forbidden words
b('C05', 'for-all-first-only', ('all(flag in homonym.flags for homonym in homonyms)',
                                'flag in homonyms[0].flags and len(homonyms) == 1'), file=DIC)
b('C05', 'for-all-last', ('all(flag in homonym.flags for homonym in homonyms)', 'flag in homonyms[-1].flags'), file=DIC)
b('C05', 'any-first', ('return any(flag in homonym.flags for homonym in homonyms)',
                       'return flag in homonyms[0].flags'), file=DIC)
b('C05', 'call-any', ('self.dic.has_flag(word, self.aff.FORBIDDENWORD, for_all=True)',
                      'self.dic.has_flag(word, self.aff.FORBIDDENWORD) and False'))
b('C05', 'after-iconv', ('''        if self.aff.FORBIDDENWORD and self.dic.has_flag(word, self.aff.FORBIDDENWORD, for_all=True):
            return False
''', ''), ('''        if NUMBER_REGEXP.fullmatch(word):
''', '''        if not self.aff.ICONV and self.aff.FORBIDDENWORD and \\
                self.dic.has_flag(word, self.aff.FORBIDDENWORD, for_all=True):
            return False
        if NUMBER_REGEXP.fullmatch(word):
'''))
b('C05', 'inner-flags', ('self.aff.FORBIDDENWORD in form.in_dictionary.flags', 'self.aff.FORBIDDENWORD in (form.suffix.flags if form.suffix else form.in_dictionary.flags)'))
b('C05', 'prefix-only', ('(compoundpos or form.has_affixes())', '(compoundpos or form.suffix)'))
b('C05', 'no-compound', ('(compoundpos or form.has_affixes())', 'form.has_affixes()'))
b('C05', 'all-homonyms', ('any(self.aff.FORBIDDENWORD in homonym.flags for homonym in homonyms)',
                          'all(self.aff.FORBIDDENWORD in homonym.flags for homonym in homonyms) and homonyms'))
b('C05', 'return-to-continue', ('''                    any(self.aff.FORBIDDENWORD in homonym.flags for homonym in homonyms)):
                return
''', '''                    any(self.aff.FORBIDDENWORD in homonym.flags for homonym in homonyms)):
                continue
'''))
b('C05', 'compound-whole-no-affixes', ('''for candidate in
                                          self.affix_forms(word, captype=captype, with_forbidden=True)):''',
                                       '''for candidate in
                                          self.affix_forms(word, captype=captype)):'''))
b('C05', 'compound-whole-only-all', ('''        if self.aff.FORBIDDENWORD and any(self.aff.FORBIDDENWORD in candidate.flags()''',
                                     '''        if self.aff.FORBIDDENWORD and self.aff.COMPOUNDFLAG and any(self.aff.FORBIDDENWORD in candidate.flags()'''))
b('C05', 'rules-forbidden', ('''                if aff.FORBIDDENWORD and aff.FORBIDDENWORD in homonym.flags:
                    continue
''', ''))
b('C05', 'rules-forbidden-last', ('''        if prev_parts:
            for homonym in good_homonyms(word_rest):
''', '''        if prev_parts:
            for homonym in self.dic.homonyms(word_rest):
'''))
b('C05', 'whole-any-stem-only', ('self.aff.FORBIDDENWORD in candidate.flags()',
                                 'self.aff.FORBIDDENWORD in candidate.flags() and candidate.is_base()'))
b('C05', 'with-forbidden-default', ('with_forbidden=False) -> Iterator[AffixForm]', 'with_forbidden=True) -> Iterator[AffixForm]'))
# affixes
b('C06', 'crossproduct-suffix', ('(not crossproduct or suffix.crossproduct) and', ''))
b('C06', 'crossproduct-nested', ('''                                           nested=True,
                                           crossproduct=crossproduct):''', '''                                           nested=True):'''))
b('C06', 'required-any', ('all(f in suffix.flags for f in required_flags)', '(not required_flags or any(f in suffix.flags for f in required_flags))'))
b('C06', 'required-first', ('all(f in suffix.flags for f in required_flags)', '(not required_flags or required_flags[0] in suffix.flags)'))
b('C06', 'forbidden-ignored', ('''                all(f in suffix.flags for f in required_flags) and
                all(f not in suffix.flags for f in forbidden_flags)''', '''                all(f in suffix.flags for f in required_flags)'''))
b('C06', 'forbidden-all', ('all(f not in suffix.flags for f in forbidden_flags)', 'not (forbidden_flags and all(f in suffix.flags for f in forbidden_flags[1:]))'))
b('C06', 'second-required-replaced', ('required_flags=[suffix.flag, *required_flags],', 'required_flags=[suffix.flag],'))
b('C06', 'second-forbidden-lost', ('''                                           forbidden_flags=forbidden_flags,
                                           nested=True,
''', '''                                           forbidden_flags=[],
                                           nested=True,
'''))
b('C06', 'cond-on-word', ('if not suffix.cond_regexp.search(stem):', 'if not suffix.cond_regexp.search(word):'))
b('C06', 'cond-skip-strip', ('if not suffix.cond_regexp.search(stem):', 'if suffix.strip and not suffix.cond_regexp.search(stem):'))
b('C06', 'cond-prefix-match', ('if not prefix.cond_regexp.search(stem):', 'if not prefix.cond_regexp.search(stem) and not nested:'))
b('C06', 'complexprefixes', ('if not nested and self.aff.COMPLEXPREFIXES:', 'if not nested:'))
b('C06', 'suffix2-swapped', ('yield form2.replace(suffix2=suffix, text=word)', 'yield form2.replace(suffix=suffix, suffix2=form2.suffix, text=word)'))
b('C06', 'prefix2-drop', ('yield form2.replace(prefix2=prefix, text=word)', 'yield form2.replace(text=word)'))
b('C06', 'cross-prefix-lost', ('form2.replace(text=form.text, prefix=form.prefix)', 'form2.replace(text=form.text)'))
b('C06', 'cross-required', ('''                        for form2 in self.desuffix(form.stem,
                                                   required_flags=suffix_flags,
                                                   forbidden_flags=forbidden_flags,
                                                   crossproduct=True)''', '''                        for form2 in self.desuffix(form.stem,
                                                   required_flags=suffix_flags,
                                                   forbidden_flags=forbidden_flags,
                                                   crossproduct=bool(suffix_flags))'''))
b('C06', 'cross-or', ('if suffix_allowed and form.prefix and form.prefix.crossproduct:', 'if suffix_allowed and form.prefix and (form.prefix.crossproduct or form.prefix2):'))
b('C06', 'sub-count', ('stem = suffix.replace_regexp.sub(lambda _: suffix.strip, word)', "stem = word[:-len(suffix.add)] + suffix.strip"))
b('C06', 'flag-own', ('''        if form.suffix and form.suffix.flag not in all_flags:
            return False
''', '''        if form.suffix and form.suffix.flag not in all_flags and not form.prefix:
            return False
'''))
b('C06', 'flag-root', ('if form.prefix and form.prefix.flag not in all_flags:', 'if form.prefix and form.prefix.flag not in root_flags:'))
b('C06', 'flags-missing-suffix', ('''        if self.suffix:
            flags = flags.union(self.suffix.flags)
        return flags''', '''        if self.suffix and not self.prefix:
            flags = flags.union(self.suffix.flags)
        return flags'''))
b('C06', 'allowed-end', ('suffix_allowed = compoundpos in [None, CompoundPos.END] or suffix_flags', 'suffix_allowed = compoundpos in [None, CompoundPos.END, CompoundPos.MIDDLE] or suffix_flags'))
b('C06', 'circumfix-one', ('if bool(prefix_has) != bool(suffix_has):', 'if prefix_has and not suffix_has:'))
b('C06', 'circumfix-or', ('''            if bool(prefix_has) != bool(suffix_has):
                return False''', '''            if form.prefix and form.suffix and bool(prefix_has) != bool(suffix_has):
                return False'''))
# restrictions
b('C07', 'needaffix-any', ('all(aff.NEEDAFFIX in a.flags for a in form.all_affixes())', 'any(aff.NEEDAFFIX in a.flags for a in form.all_affixes())'))
b('C07', 'needaffix-suffix-only', ('if form.has_affixes() and all(aff.NEEDAFFIX in a.flags for a in form.all_affixes()):', 'if form.suffix and aff.NEEDAFFIX in form.suffix.flags:'))
b('C07', 'needaffix-root', ('if aff.NEEDAFFIX in root_flags and not form.has_affixes():', 'if aff.NEEDAFFIX in root_flags and not form.suffix:'))
b('C07', 'onlyincompound-root', ('return aff.ONLYINCOMPOUND not in all_flags', 'return aff.ONLYINCOMPOUND not in root_flags'))
b('C07', 'all-affixes-missing', ('[self.prefix2, self.prefix, self.suffix, self.suffix2]', '[self.prefix, self.suffix]'))
b('C07', 'nosuggest-all', ('if not allow_nosuggest and aff.NOSUGGEST in root_flags:', 'if not allow_nosuggest and not compoundpos and aff.NOSUGGEST in root_flags:'))
b('C16', 'nosuggest-rule-last', ('if not allow_nosuggest and aff.NOSUGGEST and aff.NOSUGGEST in homonym.flags:', 'if not allow_nosuggest and aff.NOSUGGEST and not prev_parts and aff.NOSUGGEST in homonym.flags:'))
b('C16', 'nosuggest-simplified', ('''                                             suffix_flags=permitflags,
                                             forbidden_flags=forbidden_flags,
                                             allow_nosuggest=allow_nosuggest):
                    for partial in self.compounds_by_flags(rest, captype=captype, depth=depth+1,
                                                           allow_nosuggest=allow_nosuggest):
                        yield CompoundForm([form.replace(text=beg)''', '''                                             suffix_flags=permitflags,
                                             forbidden_flags=forbidden_flags):
                    for partial in self.compounds_by_flags(rest, captype=captype, depth=depth+1,
                                                           allow_nosuggest=allow_nosuggest):
                        yield CompoundForm([form.replace(text=beg)'''))
b('C16', 'nosuggest-rules-pass', ('self.compounds_by_rules(word, allow_nosuggest=allow_nosuggest)', 'self.compounds_by_rules(word)'))
b('C16', 'nosuggest-affix-pass', ('self.affix_forms(variant, captype=captype, allow_nosuggest=allow_nosuggest)', 'self.affix_forms(variant, captype=captype, allow_nosuggest=allow_nosuggest or capitalization)'))
# case
b('C10', 'keepcase-all', ('captype != form.in_dictionary.captype and aff.KEEPCASE in root_flags', 'captype != form.in_dictionary.captype and captype != CapType.INIT and aff.KEEPCASE in root_flags'))
b('C10', 'keepcase-all-flags', ('captype != form.in_dictionary.captype and aff.KEEPCASE in root_flags', 'captype != form.in_dictionary.captype and aff.KEEPCASE in root_flags and not form.has_affixes()'))
b('C10', 'sharps-only', ("if not (aff.CHECKSHARPS and 'ß' in form.in_dictionary.stem):", "if not aff.CHECKSHARPS:"))
b('C10', 'sharps-word', ("captype == CapType.ALL and 'ß' in word):", "captype == CapType.ALL and 'ß' in variant):"))
b('C10', 'ignorecase-found', ('if found or compoundpos or captype != CapType.ALL:', 'if found or captype != CapType.ALL:'))
b('C10', 'ignorecase-any-captype', ('if found or compoundpos or captype != CapType.ALL:', 'if found or compoundpos or captype == CapType.NO:'))
b('C10', 'guess-variant', ('if self.aff.casing.guess(word) == CapType.NO:', 'if self.aff.casing.guess(form.stem) == CapType.NO:'))
b('C10', 'variants-huhinit', ('''        elif captype == Type.HUHINIT:
            result = [word, *self.lowerfirst(word)]
''', '''        elif captype == Type.HUHINIT:
            result = [word, *self.lowerfirst(word), *self.lower(word)]
'''), file=CAP)
b('C10', 'variants-huh', ('''        elif captype == Type.HUH:
            result = [word]
''', '''        elif captype == Type.HUH:
            result = [word, *self.capitalize(word)]
'''), file=CAP)
b('C10', 'variants-all-no-title', ('''            result = [word]
        elif captype == Type.ALL:
            result = [word, *self.lower(word), *self.capitalize(word)]
''', '''            result = [word]
        elif captype == Type.ALL:
            result = [word, *self.lower(word)]
'''), file=CAP)
b('C10', 'guess-init', ('return Type.INIT if word[1:].islower() else Type.HUHINIT', 'return Type.INIT if word[1:] == word[1:].lower() else Type.HUHINIT'), file=CAP)
b('C10', 'guess-first', ('if word[:1].isupper():', 'if word[:2].isupper():'), file=CAP)
b('C10', 'turkic-swap', ("U2L = str.maketrans('İI', 'iı')", "U2L = str.maketrans('İI', 'ıi')"), file=CAP)
b('C10', 'turkic-upper', ('return super().upper(word.translate(self.L2U))', 'return super().upper(word).translate(self.L2U)'), file=CAP)
b('C10', 'german-guess', ("if 'ß' in word and super().guess(word.replace('ß', '')) == Type.ALL:", "if 'ß' in word and super().guess(word.replace('ß', '')) != Type.NO:"), file=CAP)
b('C10', 'german-start', ('*sharp_s_variants(text, pos+2)]', '*sharp_s_variants(text, pos+1)]'), file=CAP)
b('C10', 'german-no-plain', ('for variant in [*sharp_s_variants(lowered), lowered]]', 'for variant in sharp_s_variants(lowered) or [lowered]]'), file=CAP)
b('C10', 'german-one', ('return [replaced, *sharp_s_variants(replaced, pos+1), *sharp_s_variants(text, pos+2)]', 'return [replaced, *sharp_s_variants(replaced, pos+1)]'), file=CAP)
b('C10', 'lower-dotted', ("return [word.lower().replace('i̇', 'i')]", 'return [word.lower()]'), file=CAP)
b('C10', 'lower-dotted-first', ("if not word or word[0] == 'İ':", "if not word or 'İ' in word:"), file=CAP)
b('C10', 'lowerfirst-rest', ('return (letter + word[1:] for letter in self.lower(word[0]))', 'return (letter + word[1:].lower() for letter in self.lower(word[0]))'), file=CAP)
b('C10', 'capitalize-rest', ('return (self.upper(word[0]) + lower for lower in self.lower(word[1:]))', 'return (word[0] + lower for lower in self.lower(word[1:]))'), file=CAP)
b('C10', 'lang-az', ("['tr', 'tr_TR', 'az', 'crh']", "['tr', 'tr_TR', 'az']"), file=AFF)
b('C10', 'forceucase-lower', ('for homonym in self.dic.homonyms(form.stem.lower()):', 'for homonym in self.dic.homonyms(form.stem, ignorecase=True):'))
b('C10', 'forceucase-all', ('self.aff.FORCEUCASE and captype == CapType.INIT:', 'self.aff.FORCEUCASE and captype != CapType.NO:'))
b('C19', 'coerce-huhinit', ('if cap in (Type.INIT, Type.HUHINIT):', 'if cap == Type.INIT:'), file=CAP)
b('C19', 'coerce-lower-rest', ('return self.upper(word[:1]) + word[1:]', 'return self.upper(word[:1]) + word[1:].lower()'), file=CAP)
b('C19', 'coerce-plain-upper', ('return self.upper(word[:1]) + word[1:]', 'return word[:1].upper() + word[1:]'), file=CAP)
# input
b('C11', 'ignore-before-iconv', ('''        if self.aff.ICONV:
            word = self.aff.ICONV(word)
        if self.aff.IGNORE:
            word = word.translate(self.aff.IGNORE.tr)
''', '''        if self.aff.IGNORE:
            word = word.translate(self.aff.IGNORE.tr)
        if self.aff.ICONV:
            word = self.aff.ICONV(word)
'''))
b('C11', 'ignore-else', ('''        if self.aff.IGNORE:
            word = word.translate(self.aff.IGNORE.tr)
''', '''        elif self.aff.IGNORE:
            word = word.translate(self.aff.IGNORE.tr)
'''))
b('C11', 'number-before', ('''        if self.aff.ICONV:
            word = self.aff.ICONV(word)
''', '''        if NUMBER_REGEXP.fullmatch(word):
            return True
        if self.aff.ICONV:
            word = self.aff.ICONV(word)
'''), ('''        if NUMBER_REGEXP.fullmatch(word):
            return True
        for parts''', '''        for parts'''))
b('C11', 'number-match', ('if NUMBER_REGEXP.fullmatch(word):', 'if NUMBER_REGEXP.match(word):'), ("r'^\\d+(\\.\\d+)?$'", "r'^\\d+(\\.\\d+)?'"))
b('C11', 'number-comma', ("r'^\\d+(\\.\\d+)?$'", "r'^\\d+([.,]\\d+)?$'"))
b('C11', 'number-many', ("r'^\\d+(\\.\\d+)?$'", "r'^\\d+(\\.\\d+)*$'"))
b('C11', 'number-short', ("r'^\\d+(\\.\\d+)?$'", "r'^\\d+(\\.\\d*)?$'"))
b('C11', 'capitalization-dropped', ('return any(self.good_forms(w, capitalization=capitalization, allow_nosuggest=allow_nosuggest))', 'return any(self.good_forms(w, allow_nosuggest=allow_nosuggest))'))
b('C11', 'any-part', ('if all(is_correct(part) for part in parts if part):', 'if parts and all(is_correct(part) for part in parts[:2] if part):'))
b('C12', 'empty-parts', ('all(is_correct(part) for part in parts if part)', 'all(is_correct(part) for part in parts)'))
b('C12', 'depth', ('if depth > 10:', 'if depth > 1:'))
b('C12', 'start-one', ('''                for breaking in self.break_word(rest, depth=depth+1):
                    yield [start, *breaking]''', '''                for breaking in self.break_word(rest, depth=depth+1):
                    if start:
                        yield [start, *breaking]'''))
b('C12', 'first-match', ('''            for m in pat.regexp.finditer(text):
''', '''            for m in [*pat.regexp.finditer(text)][:1]:
'''))
b('C12', 'group', ('start = text[:m.start(1)]', 'start = text[:m.start()]'))
b('C12', 'group-end', ('rest = text[m.end(1):]', 'rest = text[m.end():]'))
b('C12', 'pattern-end', ('''            self.regexp = re.compile(f".({pattern}).")''', '''            self.regexp = re.compile(f".({pattern})")'''), file=AFF)
b('C12', 'pattern-start-and', ("if pattern.startswith('^') or pattern.endswith('$'):", "if pattern.startswith('^'):"), file=AFF)
b('C12', 'pattern-escape', ("pattern = re.escape(self.pattern).replace('\\\\^', '^').replace('\\\\$', '$')\n        if", "pattern = self.pattern\n        if"), file=AFF)
# compounds
b('C08', 'min-off', ('for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):\n            beg = word_rest[0:pos]\n            rest', 'for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN):\n            beg = word_rest[0:pos]\n            rest'))
b('C08', 'min-first', ('for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):\n            beg = word_rest[0:pos]\n            for', 'for pos in range(1, len(word_rest) - aff.COMPOUNDMIN + 1):\n            beg = word_rest[0:pos]\n            for'))
b('C08', 'wordmax', ('(aff.COMPOUNDWORDMAX and depth + 1 >= aff.COMPOUNDWORDMAX)', '(aff.COMPOUNDWORDMAX and depth >= aff.COMPOUNDWORDMAX)'))
b('C08', 'wordmax-rules', ('len(prev_parts) + 1 >= aff.COMPOUNDWORDMAX', 'len(prev_parts) > aff.COMPOUNDWORDMAX'))
b('C08', 'pos-middle', ('compoundpos = CompoundPos.MIDDLE if depth else CompoundPos.BEGIN', 'compoundpos = CompoundPos.MIDDLE if depth > 1 else CompoundPos.BEGIN'))
b('C08', 'end-flags', ('return aff.COMPOUNDEND in all_flags', 'return aff.COMPOUNDEND in all_flags or aff.COMPOUNDMIDDLE in all_flags'))
b('C08', 'compoundflag-root', ('if aff.COMPOUNDFLAG in all_flags:', 'if aff.COMPOUNDFLAG in root_flags:'))
b('C08', 'begin-permit', ('prefix_flags = [] if compoundpos == CompoundPos.BEGIN else permitflags', 'prefix_flags = []'))
b('C08', 'permit-begin', ('prefix_flags = [] if compoundpos == CompoundPos.BEGIN else permitflags', 'prefix_flags = permitflags'))
b('C08', 'depth-same', ('''                for partial in self.compounds_by_flags(rest, captype=captype, depth=depth+1,
                                                       allow_nosuggest=allow_nosuggest):
                    yield CompoundForm([form, *partial.parts])''', '''                for partial in self.compounds_by_flags(rest, captype=captype, depth=max(depth, 1),
                                                       allow_nosuggest=allow_nosuggest):
                    yield CompoundForm([form, *partial.parts])'''))
b('C08', 'triple-rest', ('if aff.SIMPLIFIEDTRIPLE and beg[-1] == rest[0]:', 'if aff.SIMPLIFIEDTRIPLE and beg[-1] == beg[-2]:'))
b('C08', 'triple-char', ('self.affix_forms(beg + beg[-1], captype', 'self.affix_forms(beg + rest[1], captype'))
b('C08', 'rule-partial', ('if any(r.fullmatch(flag_sets) for r in rules):', 'if any(r.partial_match(flag_sets) for r in rules):'))
b('C08', 'rule-narrow', ('rules=compoundrules, prev_parts=parts', 'rules=rules, prev_parts=parts'))
b('C08', 'rule-prev', ('rules=compoundrules, prev_parts=parts', 'rules=compoundrules, prev_parts=[homonym]'))
b('C08', 'rule-flags', ('parts = [re.escape(part[0]) + part[1:] for part in', 'parts = [part for part in'), file=AFF)
b('C08', 'rule-product', ('self.re.fullmatch(', 'self.re.match('), file=AFF)
b('C08', 'rule-times', ("r'\\(([^*?]+?)\\)([*?]?)'", "r'\\(([^*?]+?)\\)([*]?)'"), file=AFF)
b('C08', 'begin-only', ('if self.aff.COMPOUNDBEGIN or self.aff.COMPOUNDFLAG:', 'if self.aff.COMPOUNDFLAG:'))
b('C08', 'forbid-affix', ('''                                         prefix_flags=permitflags,
                                         forbidden_flags=forbidden_flags,
                                         allow_nosuggest=allow_nosuggest):
                yield CompoundForm([form])''', '''                                         prefix_flags=permitflags,
                                         allow_nosuggest=allow_nosuggest):
                yield CompoundForm([form])'''))
b('C09', 'veto-rules', ('''            for compound in self.compounds_by_rules(word, allow_nosuggest=allow_nosuggest):
                if not self.is_bad_compound(compound, captype):
                    yield compound''', '''            yield from self.compounds_by_rules(word, allow_nosuggest=allow_nosuggest)'''))
b('C09', 'dup-any', ('if left == right and idx == len(compound.parts) - 2:', 'if left == right:'))
b('C09', 'dup-first', ('if left == right and idx == len(compound.parts) - 2:', 'if left == right and idx == 0:'))
b('C09', 'dup-lower', ('if left == right and idx == len(compound.parts) - 2:', 'if left_paradigm.stem == right_paradigm.stem and idx == len(compound.parts) - 2:'))
b('C09', 'case-and', ('(right_c == right_c.upper() or left_c == left_c.upper())', '(right_c == right_c.upper() and left_c == left_c.upper())'))
b('C09', 'case-dash', ("right_c != '-' and left_c != '-'", "right_c != '-'"))
b('C09', 'triple-left', ('if len(set(left[-2:] + right[:1])) == 1 or len(set(left[-1:] + right[:2])) == 1:', 'if len(set(left[-2:] + right[:1])) == 1:'))
b('C09', 'triple-four', ('len(set(left[-1:] + right[:2])) == 1', 'len(set(left[-2:] + right[:2])) == 1'))
b('C09', 'rep-str', ('pmt.replchars(left + right, aff.REP)', 'pmt.replchars(left, aff.REP)'))
b('C09', 'space-parts', ("if any(self.affix_forms(left + ' ' + right, captype=captype)):", "if idx == 0 and any(self.affix_forms(left + ' ' + right, captype=captype)):"))
b('C09', 'forbid-right', ('if self.dic.has_flag(left, aff.COMPOUNDFORBIDFLAG):', 'if self.dic.has_flag(right, aff.COMPOUNDFORBIDFLAG):'))
b('C09', 'parts-slice', ('enumerate(compound.parts[:-1])', 'enumerate(compound.parts[:-2])'), )
b('C09', 'forceucase-first', ('self.dic.has_flag(compound.parts[-1].text, aff.FORCEUCASE)', 'self.dic.has_flag(compound.parts[0].text, aff.FORCEUCASE)'))
b('C09', 'forceucase-captype', ('captype not in [CapType.ALL, CapType.INIT]:', 'captype == CapType.NO:'))
b('C09', 'pattern-stem', ('return (left.stem.endswith(self.left_stem)) and (right.stem.startswith(self.right_stem))', 'return (left.text.endswith(self.left_stem)) and (right.stem.startswith(self.right_stem))'), file=AFF)
b('C09', 'pattern-flag', ('(not self.right_flag or self.right_flag in right.flags())', '(not self.right_flag or self.right_flag in left.flags())'), file=AFF)
b('C09', 'pattern-affix', ('(not self.left_no_affix or not left.is_base())', '(not self.left_no_affix or left.is_base())'), file=AFF)
b('C09', 'pattern-partition', ("self.right_stem, _, self.right_flag = self.right.partition('/')", "self.right_stem, _, self.right_flag = self.right.rpartition('/')"), file=AFF)
b('C09', 'pattern-all', ('if any(pattern.match(left_paradigm, right_paradigm) for pattern in aff.CHECKCOMPOUNDPATTERN):', 'if aff.CHECKCOMPOUNDPATTERN[0].match(left_paradigm, right_paradigm):'))
# conversion
b('C13', 'shortest', ('''                key=lambda r: len(r[0]),
                reverse=True''', '''                key=lambda r: len(r[0])'''), file=AFF)
b('C13', 'replacement-longest', ('key=lambda r: len(r[0]),\n', 'key=lambda r: len(r[2]),\n'), file=AFF)
b('C13', 'pos-replacement', ('pos += len(search)', 'pos += len(replacement)'), file=AFF)
b('C13', 'pos-one', ('pos += len(search)', 'pos += max(len(search), 2)'), file=AFF)
b('C13', 'first-table', ('search, pattern, replacement = matches[0]', 'search, pattern, replacement = matches[-1]'), file=AFF)
b('C13', 'anchor-start', ("            if pat1.startswith('_'):\n                pat1re = '^' + pat1re\n", ''), file=AFF)
b('C13', 'anchor-elif', ("            if pat1.endswith('_'):\n", "            elif pat1.endswith('_'):\n"), file=AFF)
b('C13', 'slice-match', ('if search and pattern.match(word, pos)]', 'if search and pattern.match(word[pos:])]'), file=AFF)
b('C13', 'strip-under', ("pat1clean = pat1.replace('_', '')", "pat1clean = pat1.strip('_')"), file=AFF)
b('C13', 'replace-in-result', ("return (pat1clean, re.compile(pat1re), pat2.replace('_', ' '))", "return (pat1clean, re.compile(pat1re), pat2.replace('_', ''))"), file=AFF)
b('C13', 'ignore-case', ('re.compile(pat1re), pat2', 're.compile(pat1re, re.IGNORECASE), pat2'), file=AFF)
# literal matching and index
b('C25', 'rep-unescaped', ("        pattern = re.escape(self.pattern).replace('\\\\^', '^').replace('\\\\$', '$')\n        self.regexp = re.compile(pattern)", "        self.regexp = re.compile(self.pattern)"), file=AFF)
b('C25', 'suffix-unescaped', ("re.compile(re.escape(self.add) + '$')", "re.compile(self.add + '$')"), file=AFF)
b('C25', 'conv-unescaped', ('pat1re = re.escape(pat1clean)', 'pat1re = pat1clean'), file=AFF)
b('C25', 'prefix-sub-text', ('stem = prefix.replace_regexp.sub(lambda _: prefix.strip, word)', 'stem = prefix.replace_regexp.sub(prefix.strip, word)'))
b('C26', 'suffix-index-plain', ('suffixes[suf.add[::-1]].append(suf)', 'suffixes[suf.add].append(suf)'), file=AFF)
b('C26', 'suffix-index-set', ('suffixes[suf.add[::-1]].append(suf)', 'suffixes[suf.add[::-1]] = [suf]'), file=AFF)
b('C26', 'lookup-word', ('self.aff.suffixes_index.lookup(word[::-1])', 'self.aff.suffixes_index.lookup(word[:0:-1])'))
b('C26', 'traverse-last', ('''        yield (traversed, cur)
        if not path''', '''        if cur.payloads:
            yield (traversed, cur)
            return
        if not path'''), file=TRIE)
b('C26', 'traverse-skip-root', ('''        yield (traversed, cur)
        if not path''', '''        if traversed:
            yield (traversed, cur)
        if not path'''), file=TRIE)
b('C26', 'set-keep', ('cur.payloads = payloads', 'cur.payloads = payloads[:10]'), file=TRIE)
b('C26', 'set-first', ('''        cur.payloads = payloads''', '''        if not cur.children:
            cur.payloads = payloads'''), file=TRIE)
b('C26', 'traverse-last-letter', ('if not path or path[0] not in cur.children:', 'if len(path) < 2 or path[0] not in cur.children:'), file=TRIE)
b('C26', 'index-append', ('self.index[word.stem].append(word)', 'self.index[word.stem] = [word]'), file=DIC)

"""Wrong edits written from the statements of the properties (the second batch kept apart)"""
BUGS = []

L = 'algo/lookup.py'
S = 'algo/suggest.py'
P = 'algo/permutations.py'
CAP = 'algo/capitalization.py'
SM = 'algo/string_metrics.py'
NG = 'algo/ngram_suggest.py'
PH = 'algo/phonet_suggest.py'
TRIE = 'algo/trie.py'
DA = 'data/aff.py'
DD = 'data/dic.py'
RA = 'readers/aff.py'
RD = 'readers/dic.py'
RF = 'readers/file_reader.py'
D = 'dictionary.py'


def b(prop, name, *pairs, file=L):
    BUGS.append((prop, name, file, pairs))


# C01
b('C01', 'g-default-arg', ('''                parts = [*prev_parts, homonym]
                flag_sets = [w.flags for w in parts]
                if any(''', '''                parts = prev_parts
                parts.append(homonym)
                flag_sets = [w.flags for w in parts]
                if any('''))
b('C01', 'g-casing-cache', ('''        captype = self.guess(word)
        if captype == Type.NO:
            result = [word]
        elif captype == Type.INIT:
            result = [word, *self.lower(word)]
        elif captype == Type.HUHINIT:
            result = [word, *self.lowerfirst(word)]
''', '''        captype = self.guess(word)
        self.last = captype
        if captype == Type.NO:
            result = [word]
        elif captype == Type.INIT:
            result = [word, *self.lower(word)]
        elif captype == Type.HUHINIT:
            result = [word, *self.lowerfirst(word)]
'''), file=CAP)
b('C01', 'g-homonym-flags', ('''        flags = self.in_dictionary.flags if self.in_dictionary else set()
        if self.prefix:
            flags = flags.union(self.prefix.flags)
''', '''        flags = self.in_dictionary.flags if self.in_dictionary else set()
        if self.prefix:
            flags.update(self.prefix.flags)
'''))
b('C01', 'g-payloads', ('''            yield from leaf.payloads
''', '''            leaf.payloads.sort(key=lambda p: p.flag)
            yield from leaf.payloads
'''), file=TRIE)
b('C01', 'g-limit-attr', ('''        count = 0
        for suggestion in filter''', '''        self.count = count = 0
        for suggestion in filter'''), file=S)
# C02
b('C02', 'g-try-set', ('''        for suggestion in pmt.badchar(word, self.aff.TRY):
''', '''        for suggestion in pmt.badchar(word, ''.join(set(self.aff.TRY))):
'''), file=S)
b('C02', 'g-hash-tie', ('''    guesses2 = sorted(guesses2, key=itemgetter(0), reverse=True)
    yield from''', '''    guesses2 = sorted(guesses2, key=lambda g: (g[0], hash(g[1])), reverse=True)
    yield from'''), file=NG)
b('C02', 'g-locale', ('''        return word.upper()
''', '''        return word.upper() if locale.getlocale()[0] != 'tr_TR' else word
'''), ('''from enum import Enum
''', '''import locale
from enum import Enum
'''), file=CAP)
# C03
b('C03', 'g-sharp', ('''            return [replaced, *sharp_s_variants(replaced, pos+1), *sharp_s_variants(text, pos+2)]
''', '''            return [replaced, *sharp_s_variants(replaced, pos+1), *sharp_s_variants(text, pos)]
'''), file=CAP)
b('C03', 'g-conv-empty', ('''                 if search and pattern.match(word, pos)],
''', '''                 if pattern.match(word, pos)],
'''), file=DA)
b('C03', 'g-depth-break', ('''self.break_word(rest, depth=depth+1)''', '''self.break_word(rest, depth=depth)'''), ('''                start = text[:m.start(1)]
                rest = text[m.end(1):]
''', '''                start = text[:m.start(1)]
                rest = text[m.start(1):]
'''))
b('C03', 'g-metaphone', ('''                pos += max(match.span()[1] - match.span()[0], 1)
''', '''                pos += match.span()[1] - match.span()[0]
'''), file=PH)
b('C03', 'g-prefix-nested', ('''            if not nested and self.aff.COMPLEXPREFIXES:
                for form2 in self.deprefix(stem,
                                           required_flags=[prefix.flag, *required_flags],
                                           forbidden_flags=forbidden_flags,
                                           nested=True):
''', '''            if self.aff.COMPLEXPREFIXES:
                for form2 in self.deprefix(stem,
                                           required_flags=[prefix.flag, *required_flags],
                                           forbidden_flags=forbidden_flags):
'''))
# C04
b('C04', 'g-last-part', ('''            right_paradigm = compound.parts[idx+1]
''', '''            right_paradigm = compound.parts[idx+2] if idx > 1 else compound.parts[idx+1]
'''))
b('C04', 'g-double', ('''    if len(word) < 5:
        return
    for i in range(3, len(word)):
        if word[i-2] == word[i] and word[i-3] == word[i-1]:
''', '''    for i in range(3, len(word) + 1):
        if word[i-2] == word[i] and word[i-3] == word[i-1]:
'''), file=P)
b('C04', 'g-swap-short', ('''    if len(word) < 2:
        return
    for i in range(len(word) - 1):
        yield word[:i] + word[i+1] + word[i] + word[i+2:]
''', '''    for i in range(len(word)):
        yield word[:i] + word[i+1] + word[i] + word[i+2:]
'''), file=P)
b('C04', 'g-mangle', ('''        for pos in range(start_pos, len(word), 4):
            mangled[pos] = '*'
''', '''        mangled[start_pos - 1] = '*'
        for pos in range(start_pos, len(word), 4):
            mangled[pos] = '*'
'''), file=NG)
b('C04', 'g-prefix-flag', ('''        for prefix in all_prefixes.get(flag, [])
''', '''        for prefix in all_prefixes[flag]
'''), file=NG)
# C05
b('C05', 'g-homonyms-after', ('''                    (compoundpos or form.has_affixes()) and
''', '''                    (compoundpos and form.has_affixes()) and
'''))
b('C05', 'g-word-orig', ('''self.dic.has_flag(word, self.aff.FORBIDDENWORD, for_all=True)''', '''self.dic.has_flag(word.lower(), self.aff.FORBIDDENWORD, for_all=True)'''))
b('C05', 'g-compound-captype', ('''            return
        if self.aff.COMPOUNDBEGIN or''', '''            if captype != CapType.ALL:
                return
        if self.aff.COMPOUNDBEGIN or'''))
b('C05', 'g-for-all', ('''            return all(flag in homonym.flags for homonym in homonyms)
        return any(''', '''            return all(flag in homonym.flags for homonym in homonyms if homonym.flags)
        return any('''), file=DD)
# C06
b('C06', 'g-required', ('''                all(f in suffix.flags for f in required_flags) and
''', '''                (not required_flags or any(f in suffix.flags for f in required_flags)) and
'''))
b('C06', 'g-prefix2', ('''                    yield form2.replace(prefix2=prefix, text=word)
''', '''                    yield form2.replace(prefix=prefix, prefix2=form2.prefix, text=word)
'''))
b('C06', 'g-empty-stem', ('''            if not suffix.cond_regexp.search(stem):
                continue
            yield AffixForm(word, stem, suffix=suffix)
''', '''            if not suffix.cond_regexp.search(word):
                continue
            yield AffixForm(word, stem, suffix=suffix)
'''))
b('C06', 'g-prefix-in-root', ('''        if form.prefix and form.prefix.flag not in all_flags:
            return False
''', '''        if form.prefix and form.prefix.flag not in root_flags:
            return False
'''))
b('C06', 'g-cross-nested', ('''                                           nested=True,
                                           crossproduct=crossproduct):
''', '''                                           nested=True):
'''))
b('C06', 'g-prefix-text', ('''form2.replace(text=form.text, prefix=form.prefix)''', '''form2.replace(prefix=form.prefix)'''))
b('C06', 'g-prefix-inner', ('''form2.replace(text=form.text, prefix=form.prefix)''', '''form2.replace(text=form.text, prefix=form.prefix, suffix2=None)'''))
# C07
b('C07', 'g-keepcase-sharps', ('''            if not (aff.CHECKSHARPS and 'ß' in form.in_dictionary.stem):
                return False
''', '''            if not (aff.CHECKSHARPS or 'ß' in form.in_dictionary.stem):
                return False
'''))
b('C07', 'g-circumfix-need', ('''            suffix_has = form.suffix and aff.CIRCUMFIX in form.suffix.flags
''', '''            suffix_has = form.suffix and aff.CIRCUMFIX in all_flags
'''))
b('C07', 'g-needaffix-order', ('''            if form.has_affixes() and all(aff.NEEDAFFIX in a.flags for a in form.all_affixes()):
                return False
''', '''            if form.suffix and aff.NEEDAFFIX in form.suffix.flags:
                return False
'''))
b('C07', 'g-only-compound', ('''        if not compoundpos:
            return aff.ONLYINCOMPOUND not in all_flags
''', '''        if not compoundpos:
            return not aff.ONLYINCOMPOUND or aff.ONLYINCOMPOUND not in form.in_dictionary.flags
'''))
b('C07', 'g-affix-count', ('''            if aff.NEEDAFFIX in root_flags and not form.has_affixes():
                return False
            if form.has_affixes()''', '''            if aff.NEEDAFFIX in root_flags and not form.has_affixes() and not compoundpos:
                return False
            if form.has_affixes()'''))
# C08
b('C08', 'g-min-rest', ('''        for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
            beg = word_rest[0:pos]
            rest''', '''        for pos in range(aff.COMPOUNDMIN, len(word_rest)):
            beg = word_rest[0:pos]
            rest'''))
b('C08', 'g-min-2', ('''        if len(word_rest) < aff.COMPOUNDMIN * 2 or (aff.COMPOUNDWORDMAX and depth''', '''        if len(word_rest) <= aff.COMPOUNDMIN * 2 or (aff.COMPOUNDWORDMAX and depth'''))
b('C08', 'g-end-suffix', ('''                                         compoundpos=CompoundPos.END,
                                         prefix_flags=permitflags,
''', '''                                         compoundpos=CompoundPos.END,
                                         suffix_flags=permitflags,
'''))
b('C08', 'g-permit-begin', ('''        prefix_flags = [] if compoundpos == CompoundPos.BEGIN else permitflags
''', '''        prefix_flags = permitflags
'''))
b('C08', 'g-rule-parts', ('''                compoundrules = [r for r in rules if r.partial_match(flag_sets)]
''', '''                compoundrules = [r for r in self.aff.COMPOUNDRULE if r.partial_match(flag_sets)][:1]
'''))
b('C08', 'g-compoundflag', ('''        if aff.COMPOUNDFLAG in all_flags:
            return True
''', '''        if aff.COMPOUNDFLAG in root_flags:
            return True
'''))
b('C08', 'g-triple-text', ('''yield CompoundForm([form.replace(text=beg), *partial.parts])''', '''yield CompoundForm([form, *partial.parts])'''))
b('C08', 'g-rule-full', ('''            self.re.fullmatch(''.join(fc))''', '''            self.re.match(''.join(fc))'''), file=DA)
b('C08', 'g-rule-max', ('''(aff.COMPOUNDWORDMAX and len(prev_parts) + 1 >= aff.COMPOUNDWORDMAX)''', '''(aff.COMPOUNDWORDMAX and len(prev_parts) >= aff.COMPOUNDWORDMAX)'''))
b('C08', 'g-forbid', ('''        forbidden_flags = [aff.COMPOUNDFORBIDFLAG] if aff.COMPOUNDFORBIDFLAG else []
''', '''        forbidden_flags = [aff.COMPOUNDFORBIDFLAG] if aff.COMPOUNDFORBIDFLAG and not depth else []
'''))
# C09
b('C09', 'g-last-boundary', ('''enumerate(compound.parts[:-1]):
            left =''', '''enumerate(compound.parts[:-1][:2]):
            left ='''))
b('C09', 'g-rules-skip', ('''            for compound in self.compounds_by_rules(word, allow_nosuggest=allow_nosuggest):
                if not self.is_bad_compound(compound, captype):
                    yield compound
''', '''            yield from self.compounds_by_rules(word, allow_nosuggest=allow_nosuggest)
'''))
b('C09', 'g-ucase-first', ('''self.dic.has_flag(compound.parts[-1].text, aff.FORCEUCASE)''', '''self.dic.has_flag(compound.parts[0].text, aff.FORCEUCASE)'''))
b('C09', 'g-ucase-type', ('''captype not in [CapType.ALL, CapType.INIT]''', '''captype not in [CapType.ALL, CapType.INIT, CapType.HUHINIT]'''))
b('C09', 'g-rep', ('''                    if isinstance(candidate, str) and any(self.affix_forms(candidate, captype=captype)):
                        return True
''', '''                    if isinstance(candidate, str) and self.dic.homonyms(candidate):
                        return True
'''))
b('C09', 'g-triple-both', ('''len(set(left[-1:] + right[:2])) == 1''', '''len(set(left[-1:] + right[:1])) == 1'''))
b('C09', 'g-case-lower', ('''(right_c == right_c.upper() or left_c == left_c.upper())''', '''(right_c == right_c.upper() and left_c == left_c.upper())'''))
b('C09', 'g-phrase', ('''left + ' ' + right, captype=captype''', '''left + '-' + right, captype=captype'''))
# C10
b('C10', 'g-all-lower-only', ('''            result = [word, *self.lower(word), *self.capitalize(word)]
        return (captype, result)
    def corrections''', '''            result = [word, *self.capitalize(word)]
        return (captype, result)
    def corrections'''), file=CAP)
b('C10', 'g-huhinit-lower', ('''            result = [word, *self.lowerfirst(word)]
''', '''            result = [word, *self.lowerfirst(word), *self.lower(word)]
'''), file=CAP)
b('C10', 'g-upper-one', ('''        if word.isupper():
            return Type.ALL
''', '''        if len(word) > 1 and word.isupper():
            return Type.ALL
'''), file=CAP)
b('C10', 'g-break-variant', ('''            if compound_forms:
                yield from self.compound_forms(variant,''', '''            if compound_forms and not variant.istitle():
                yield from self.compound_forms(variant,'''))
b('C10', 'g-dotless', ('''        return [word.lower().replace('i̇', 'i')]
''', '''        return [word.lower()]
'''), file=CAP)
# C11
b('C11', 'g-iconv-late', ('''        if NUMBER_REGEXP.fullmatch(word):
            return True
''', ''''''), ('''        if self.aff.ICONV:
            word = self.aff.ICONV(word)
        if self.aff.IGNORE''', '''        if NUMBER_REGEXP.fullmatch(word):
            return True
        if self.aff.ICONV:
            word = self.aff.ICONV(word)
        if self.aff.IGNORE'''))
b('C11', 'g-number-comma', ('''NUMBER_REGEXP = re.compile(r'^\\d+(\\.\\d+)?$')
''', '''NUMBER_REGEXP = re.compile(r'^\\d*(\\.\\d+)?$')
'''))
b('C11', 'g-first-breaking', ('''            if all(is_correct(part) for part in parts if part):
                return True
        return False
''', '''            if all(is_correct(part) for part in parts if part):
                return True
            if len(parts) > 3:
                break
        return False
'''))
b('C11', 'g-empty', ('''all(is_correct(part) for part in parts if part)''', '''all(is_correct(part) for part in parts)'''))
# C12
b('C12', 'g-anchored', ('''        if pattern.startswith('^') or pattern.endswith('$'):
''', '''        if pattern.startswith('^') and pattern.endswith('$'):
'''), file=DA)
b('C12', 'g-rest', ('''                rest = text[m.end(1):]
''', '''                rest = text[m.end():]
'''))
b('C12', 'g-start-broken', ('''                for breaking in self.break_word(rest, depth=depth+1):
                    yield [start, *breaking]
''', '''                if start:
                    for breaking in self.break_word(rest, depth=depth+1):
                        yield [start, *breaking]
'''))
# C13
b('C13', 'g-tie', ('''                key=lambda r: len(r[0]),
                reverse=True
''', '''                key=lambda r: len(r[2]),
                reverse=True
'''), file=DA)
b('C13', 'g-space', ('''pat2.replace('_', ' '))''', '''pat2.replace('_', ''))'''), file=DA)
b('C13', 'g-start', ('''            if pat1.startswith('_'):
                pat1re = '^' + pat1re
''', '''            if pat1.startswith('_') and len(pat1) > 2:
                pat1re = '^' + pat1re
'''), file=DA)
# C14
b('C14', 'g-lower', ('''            return self.aff.FORBIDDENWORD and self.dic.has_flag(word, self.aff.FORBIDDENWORD)
''', '''            return self.aff.FORBIDDENWORD and self.dic.has_flag(word.lower(), self.aff.FORBIDDENWORD)
'''), file=S)
b('C14', 'g-keep', ('''            if is_forbidden(text):
                return
            text = self''', '''            if text != suggestion.text and is_forbidden(text):
                return
            text = self'''), file=S)
b('C14', 'g-nosuggest', ('''            if is_forbidden(text):
                return
            text = self''', '''            if check_inclusion and is_forbidden(text):
                return
            text = self'''), file=S)
# C15
b('C15', 'g-clear', ('''            if not nocompound:
''', '''            if not nocompound:
                handled.discard(variant)
'''), file=S)
b('C15', 'g-inclusion-only', ('''            if text in handled:
                return
            if check_inclusion and any(''', '''            if not check_inclusion and text in handled:
                return
            if check_inclusion and len(handled) < 10 and any('''), file=S)
# C16
b('C16', 'g-noncompound', ('''            return any(self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False, compound_forms=False))
''', '''            return any(self.lookup.good_forms(word, capitalization=False, compound_forms=False))
'''), file=S)
b('C16', 'g-part-allow', ('''                for partial in self.compounds_by_flags(rest, captype=captype, depth=depth+1,
                                                       allow_nosuggest=allow_nosuggest):
                    yield CompoundForm([form, *partial.parts])
''', '''                for partial in self.compounds_by_flags(rest, captype=captype, depth=depth+1):
                    yield CompoundForm([form, *partial.parts])
'''))
b('C16', 'g-root', ('''        if not allow_nosuggest and aff.NOSUGGEST in root_flags:
''', '''        if not allow_nosuggest and not compoundpos and aff.NOSUGGEST in root_flags:
'''))
b('C16', 'g-bad-flags', ('''if not bad_flags.intersection(word.flags)''', '''if not bad_flags.issubset(word.flags)'''), file=S)
# C17
b('C17', 'g-multi-len', ('''all(is_good_suggestion(word) for word in suggestion.words)''', '''all(is_good_suggestion(word) for word in suggestion.words[:2])'''), file=S)
b('C17', 'g-upper', ('''                    if is_good_suggestion(suggestion.text):
''', '''                    if suggestion.kind == 'uppercase' or is_good_suggestion(suggestion.text):
'''), file=S)
b('C17', 'g-case-good', ('''            return any(self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False))
''', '''            return any(self.lookup.good_forms(word, allow_nosuggest=False))
'''), file=S)
# C18
b('C18', 'g-round', ('''limit=MAXSUGGESTIONS, compounds=False):
''', '''limit=MAXSUGGESTIONS * (idx + 1), compounds=False):
'''), file=S)
b('C18', 'g-phon', ('''MAXPHONSUGS = 2
''', '''MAXPHONSUGS = 3
'''), file=S)
b('C18', 'g-ng-default', ('''    MAXNGRAMSUGS: int = 4
''', '''    MAXNGRAMSUGS: int = 5
'''), file=DA)
b('C18', 'g-ng-zero', ('''        if self.aff.MAXNGRAMSUGS == 0:
            return
''', '''        if self.aff.MAXNGRAMSUGS < 0:
            return
'''), file=S)
# C19
b('C19', 'g-all', ('''        if cap == Type.ALL:
            return self.upper(word)
        return word
''', '''        if cap == Type.ALL and word.islower():
            return self.upper(word)
        return word
'''), file=CAP)
b('C19', 'g-space', ('''text[:pos+1] + word[pos] + text[pos+2:]''', '''text[:pos+1] + word[pos] + text[pos+1:]'''), file=S)
b('C19', 'g-captype', ('''            if (self.aff.KEEPCASE and self.dic.has_flag(text, self.aff.KEEPCASE) and not
''', '''            if (self.aff.KEEPCASE and self.dic.has_flag(text, self.aff.KEEPCASE, for_all=True) and not
'''), file=S)
b('C19', 'g-oconv-ngram', ('''            text = self.aff.OCONV(text) if self.aff.OCONV else text
''', '''            text = self.aff.OCONV(text) if self.aff.OCONV and not check_inclusion else text
'''), file=S)
# C20
b('C20', 'g-rep-short', ('''    if len(word) < 2 or not reptable:
        return
''', '''    if len(word) < 3 or not reptable:
        return
'''), file=P)
b('C20', 'g-rep-split', ('''                yield suggestion.split(' ', 2)
''', '''                yield suggestion.split(' ', 1)
'''), file=P)
b('C20', 'g-double-range', ('''    if len(word) < 5:
        return
''', '''    if len(word) < 6:
        return
'''), file=P)
b('C20', 'g-move-back', ('''range(max(0, frompos - MAX_CHAR_DISTANCE + 1), frompos - 1)''', '''range(max(1, frompos - MAX_CHAR_DISTANCE + 1), frompos - 1)'''), file=P)
b('C20', 'g-two', ('''    for i in range(1, len(word)):
        yield [word[:i], word[i:]]
''', '''    for i in range(2, len(word)):
        yield [word[:i], word[i:]]
'''), file=P)
b('C20', 'g-badchar', ('''            if word[i] == c:
                continue
''', '''            if word[i].lower() == c:
                continue
'''), file=P)
b('C20', 'g-swap5', ('''            yield word[0] + word[2] + word[1] + word[-1] + word[-2]
''', '''            yield word[0] + word[2] + word[1] + word[3] + word[4]
'''), file=P)
b('C20', 'g-map-pos', ('''                pos = word.find(option, start)
''', '''                pos = word.rfind(option, start)
'''), file=P)
# C21
b('C21', 'g-try-dash', ('''        return '-' in self.aff.TRY or 'a' in self.aff.TRY
''', '''        return '-' in self.aff.TRY
'''), file=S)
b('C21', 'g-mapchars-nocompound', ('''                if suggestion.kind in ['uppercase', 'replchars', 'mapchars']:
''', '''                if suggestion.kind in ['uppercase', 'replchars']:
'''), file=S)
b('C21', 'g-ngrams-after-good', ('''        if good_edits_found:
            return
''', '''        if good_edits_found and '-' not in word:
            return
'''), file=S)
b('C21', 'g-key', ('''pmt.badcharkey(word, self.aff.KEY)''', '''pmt.badcharkey(word, self.aff.TRY)'''), file=S)
b('C21', 'g-spaceword', ('''                if suggestion.kind == 'spaceword':
                    return
''', '''                if suggestion.kind == 'spaceword':
                    break
'''), file=S)
# C22
b('C22', 'g-flag-dir', ("""'KEEPCASE', 'CIRCUMFIX',""", """'KEEPCASE',"""), file=RA)
b('C22', 'g-synonym', ("""'PSEUDOROOT': 'NEEDAFFIX'""", """'PSEUDOROOT': 'ONLYINCOMPOUND'"""), file=RA)
b('C22', 'g-cross', ('''(crossproduct == 'Y')''', '''(crossproduct in 'Yy')'''), file=RA)
b('C22', 'g-add-zero', ('''        add=('' if add == '0' else add),
''', '''        add=add.replace('0', ''),
'''), file=RA)
b('C22', 'g-default-break', ('''lambda: [BreakPattern('-'), BreakPattern('^-'), BreakPattern('-$')])
''', '''lambda: [BreakPattern('-')])
'''), file=DA)
b('C22', 'g-compoundmin', ('''    COMPOUNDMIN: int = 3
''', '''    COMPOUNDMIN: int = 2
'''), file=DA)
# C23
b('C23', 'g-ignore-stem', ('''            word = word.translate(context.ignore.tr)
''', '''            word = word.translate(context.ignore.tr) if not flags else word
'''), file=RD)
b('C23', 'g-files-enc', ('''FileReader(path + '.dic', encoding=context.encoding)''', '''FileReader(path + '.dic', encoding=aff.SET)'''), file=D)
b('C23', 'g-flag-fmt', ('''            context.flag_format = value
''', '''            context.flag_format = value.lower()
'''), file=RA)
b('C23', 'g-alias-when', ('''        if self.flag_synonyms and string.isdigit():
''', '''        if self.flag_synonyms and string.isdigit() and self.flag_format != 'num':
'''), file=RA)
b('C23', 'g-set-reset', ('''            context.encoding = value
            source.reset_encoding(value)
''', '''            context.encoding = value
'''), file=RA)
# C24
b('C24', 'g-escape', ('''        if r'\\/' in word:
            word = word.replace(r'\\/', '/')
''', '''        if r'\\/' in word and flags:
            word = word.replace(r'\\/', '/')
'''), file=RD)
b('C24', 'g-empty-flags', ('''                word, flags = word_with_flags
''', '''                word, flags = word_with_flags[0], word_with_flags[1].strip('/')
'''), file=RD)
b('C24', 'g-index-lower', ('''        self.index[word.stem].append(word)
''', '''        self.index[word.stem.lower()].append(word)
'''), file=DD)
b('C24', 'g-first-line', ('''        if num == 1 and COUNT_REGEXP.match(line):
''', '''        if num == 1:
'''), file=RD)
b('C24', 'g-homonyms-index', ('''            return self.lowercase_index.get(stem, [])
''', '''            return self.lowercase_index.get(stem.lower(), [])
'''), file=DD)
# C25
b('C25', 'g-prefix', ('''        self.replace_regexp = re.compile('^' + re.escape(self.add))
''', '''        self.replace_regexp = re.compile('^' + self.add.replace('.', '\\\\.'))
'''), file=DA)
b('C25', 'g-rule', ('''re.escape(part[0]) + part[1:]''', '''part'''), file=DA)
b('C25', 'g-break', ('''        pattern = re.escape(self.pattern).replace('\\\\^', '^').replace('\\\\$', '$')
        if pattern.''', '''        pattern = self.pattern.replace('.', '\\\\.')
        if pattern.'''), file=DA)
# C26
b('C26', 'g-children', ('''        if not path or path[0] not in cur.children:
            return
''', '''        if len(path) < 2 or path[0] not in cur.children:
            return
'''), file=TRIE)
b('C26', 'g-prefix-index', ('''            prefixes[pref.add].append(pref)
''', '''            prefixes[pref.add[:1]].append(pref)
'''), file=DA)
b('C26', 'g-suffix-word', ('''self.aff.suffixes_index.lookup(word[::-1])''', '''self.aff.suffixes_index.lookup(word[:0:-1])'''))
# C27
b('C27', 'g-eval', ('''    if directive in ['MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDWORDMAX']:
        return int(value)
''', '''    if directive in ['MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDWORDMAX']:
        return eval(value)
'''), file=RA)
b('C27', 'g-pickle', ('''        aff, context = readers.read_aff(FileReader(path + '.aff'))
''', '''        if os.path.exists(path + '.cache'):
            import pickle
            with open(path + '.cache', 'rb') as f:
                return cls(*pickle.load(f))
        aff, context = readers.read_aff(FileReader(path + '.aff'))
'''), file=D)
# C28
b('C28', 'g-comment', ('''            yield (self.line_no, ln.strip())
''', '''            if not ln.startswith('#'):
                yield (self.line_no, ln.strip())
'''), file=RF)
b('C28', 'g-enc-same', ('''    def reset_encoding(self, encoding):
        self.reset_io(self._open(self.path, encoding))
''', '''    def reset_encoding(self, encoding):
        if encoding.upper() != 'UTF-8':
            self.reset_io(self._open(self.path, encoding))
'''), file=RF)
b('C28', 'g-errors', ('''open(path, 'r', encoding=encoding, errors='surrogateescape')''', '''open(path, 'r', encoding=encoding, errors='ignore')'''), file=RF)
# C29
b('C29', 'g-flags', ('''        for flag in word.flags
        for suffix in all_suffixes.get(flag, [])
        if''', '''        for flag in all_suffixes
        for suffix in all_suffixes.get(flag, [])
        if'''), file=NG)
b('C29', 'g-prefix-strip', ('''        root = word.stem[len(pref.strip):]
        res.append(pref.add + root)
''', '''        res.append(pref.add + word.stem)
'''), file=NG)
b('C29', 'g-cond-prefix', ('''        if prefix.cond_regexp.search(word.stem) and similar_to.startswith(prefix.add)
''', '''        if similar_to.startswith(prefix.add)
'''), file=NG)
b('C29', 'g-alt', ('''heapq.heappush(guess_scores, (score, variant, root.stem))''', '''heapq.heappush(guess_scores, (score, root.stem, variant))'''), file=NG)
# C30
b('C30', 'g-thousand', ('''        if seen and score <= 1000:
            return
''', '''        if seen and score < 1000:
            return
'''), file=NG)
b('C30', 'g-hundred', ('''        elif score < -100:
''', '''        elif score < -1000:
'''), file=NG)
b('C30', 'g-found-known', ('''        if not any(known_word in value for known_word in known):
            found += 1
            yield value
''', '''        found += 1
        if not any(known_word in value for known_word in known):
            yield value
'''), file=NG)
b('C30', 'g-onlymax', ('''onlymaxdiff=self.aff.ONLYMAXDIFF''', '''onlymaxdiff=False'''), file=S)
# C31
b('C31', 'g-roots', ('''MAX_ROOTS = 100
''', '''MAX_ROOTS = 10
'''), file=NG)
b('C31', 'g-bigrams', ('''        sm.ngram(2, word2, word1, any_mismatch=True, weighted=True)
''', '''        sm.ngram(2, word1, word2, any_mismatch=True, weighted=True)
'''), file=NG)
b('C31', 'g-lower', ('''sm.leftcommonsubstring(word1, word2.lower())
    )''', '''sm.leftcommonsubstring(word1, word2)
    )'''), file=NG)
b('C31', 'g-lcs', ('''    result = 2 * lcs - abs(len(word1) - len(word2))
''', '''    result = 2 * lcs - (len(word1) - len(word2))
'''), file=NG)
b('C31', 'g-phon-len', ('''        if abs(len(word.stem) - len(misspelling)) > 3:
''', '''        if len(word.stem) - len(misspelling) > 3:
'''), file=PH)
b('C31', 'g-threshold', ('''            if score > threshold:
                heapq.heappush(guess_scores, (score, form, form))
''', '''            if score >= threshold:
                heapq.heappush(guess_scores, (score, form, form))
'''), file=NG)

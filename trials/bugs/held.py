"""Wrong edits written from the statements of the properties alone (a batch kept apart to measure the checks)"""
BUGS = []

L = 'algo/lookup.py'
S = 'algo/suggest.py'
P = 'algo/permutations.py'
CAP = 'algo/capitalization.py'
SM = 'algo/string_metrics.py'
NG = 'algo/ngram_suggest.py'
PH = 'algo/phonet_suggest.py'
TRIE = 'algo/trie.py'
DA = 'data/aff.py'
DD = 'data/dic.py'
RA = 'readers/aff.py'
RD = 'readers/dic.py'
RF = 'readers/file_reader.py'
D = 'dictionary.py'


def b(prop, name, *pairs, file=L):
    BUGS.append((prop, name, file, pairs))


# C01
b('C01', 'h-cache-result', ('''        def is_correct(w):
            return any(''', '''        if not hasattr(self, '_seen'):
            self._seen = {}
        if word in self._seen:
            return self._seen[word]
        self._seen[word] = False
        def is_correct(w):
            return any('''))
b('C01', 'h-flags-inplace', ('''            flags = flags.union(self.suffix.flags)
''', '''            flags |= self.suffix.flags
'''))
b('C01', 'h-index-get', ('''        return self.index.get(stem, [])
''', '''        return self.index[stem]
'''), file=DD)
b('C01', 'h-known-words', ('''        yield from phonet_suggest.phonet_suggest(word, ''', '''        self.words_for_ngram.sort(key=lambda w: len(w.stem))
        yield from phonet_suggest.phonet_suggest(word, '''), file=S)
b('C01', 'h-lower-pop', ('''        for lword in lower:
            self.lowercase_index[lword].append(word)
''', '''        for lword in lower:
            self.lowercase_index[lword].append(word)
'''), ('''            return self.lowercase_index.get(stem, [])
''', '''            found = self.lowercase_index.get(stem, [])
            found.sort(key=lambda word: word.stem)
            return found
'''), file=DD)
# C02
b('C02', 'h-handled-iter', ('''        good_edits_found = False
        for idx, variant in enumerate(variants):
''', '''        good_edits_found = False
        for idx, variant in enumerate(set(variants)):
'''), file=S)
b('C02', 'h-known-order', ('''        if not any(known_word in value for known_word in known):
            found += 1
            yield value
''', '''        if not any(known_word in value for known_word in known):
            found += 1
            yield value
        if known and value in list(known)[0]:
            return
'''), file=NG)
b('C02', 'h-lt-id', ('''        return self.flags < other.flags
''', '''        return id(self) < id(other)
'''), file=DD)
# C03
b('C03', 'h-badkey-pos', ('''            pos = layout.find(c, pos+1)
''', '''            pos = layout.find(c, pos)
'''), file=P)
b('C03', 'h-mapchars-start', ('''mapchars_internal(replaced, pos + len(other)):
''', '''mapchars_internal(replaced, pos):
'''), file=P)
b('C03', 'h-nested-arg', ('''                                           forbidden_flags=forbidden_flags,
                                           nested=True,
                                           crossproduct=crossproduct):
''', '''                                           forbidden_flags=forbidden_flags,
                                           nested=nested,
                                           crossproduct=crossproduct):
'''))
b('C03', 'h-rules-rest', ('''self.compounds_by_rules(word_rest[pos:], rules=compoundrules, prev_parts=parts,
''', '''self.compounds_by_rules(word_rest[pos - aff.COMPOUNDMIN:], rules=compoundrules, prev_parts=parts,
'''))
# C04
b('C04', 'h-triple-idx', ('''len(set(left[-2:] + right[:1])) == 1''', '''left[-2] == left[-1] == right[0]'''))
b('C04', 'h-swap5', ('''    if len(word) in [4,  5]:
''', '''    if len(word) in [3, 4,  5]:
'''), ('''            yield word[0] + word[2] + word[1] + word[-1] + word[-2]
''', '''            yield word[0] + word[2] + word[1] + word[-1] + word[5]
'''), file=P)
b('C04', 'h-affix-first', ('''        for suffix in all_suffixes.get(flag, [])
''', '''        for suffix in all_suffixes[flag]
'''), file=NG)
b('C04', 'h-handle-space', ('''pos + 1 < len(text) and pos < len(word) and
''', '''pos + 1 < len(text) and
'''), file=S)
b('C04', 'h-upper-first', ('''            return self.upper(word[:1]) + word[1:]
''', '''            return self.upper(word[0]) + word[1:]
'''), file=CAP)
# C05
b('C05', 'h-stop-vs-skip', ('''                    any(self.aff.FORBIDDENWORD in homonym.flags for homonym in homonyms)):
                return
''', '''                    any(self.aff.FORBIDDENWORD in homonym.flags for homonym in homonyms)):
                continue
'''))
b('C05', 'h-ignorecase', ('''            if not with_forbidden and self.aff.FORBIDDENWORD and self.aff.FORBIDDENWORD in form.in_dictionary.flags:
                return False
            return self.is_good_form(form,''', '''            if (not with_forbidden and self.aff.FORBIDDENWORD and form.has_affixes() and
                    self.aff.FORBIDDENWORD in form.in_dictionary.flags):
                return False
            return self.is_good_form(form,'''))
b('C05', 'h-compound-first', ('''        if self.aff.COMPOUNDBEGIN or self.aff.COMPOUNDFLAG:
            for compound in''', '''        if self.aff.COMPOUNDBEGIN or self.aff.COMPOUNDFLAG:
            for compound in'''), ('''        if self.aff.FORBIDDENWORD and any(self.aff.FORBIDDENWORD in candidate.flags()
                                          for candidate in
                                          self.affix_forms(word, captype=captype, with_forbidden=True)):
            return
''', '''        if self.aff.FORBIDDENWORD and self.dic.has_flag(word, self.aff.FORBIDDENWORD):
            return
'''))
b('C05', 'h-after-iconv', ('''        if self.aff.FORBIDDENWORD and self.dic.has_flag(word, self.aff.FORBIDDENWORD, for_all=True):
            return False
        if self.aff.ICONV:
''', '''        if self.aff.FORBIDDENWORD and capitalization and self.dic.has_flag(word, self.aff.FORBIDDENWORD, for_all=True):
            return False
        if self.aff.ICONV:
'''))
# C06
b('C06', 'h-cond-word', ('''            if not suffix.cond_regexp.search(stem):
                continue
            yield AffixForm(word, stem, suffix=suffix)
''', '''            if suffix.strip and not suffix.cond_regexp.search(stem):
                continue
            yield AffixForm(word, stem, suffix=suffix)
'''))
b('C06', 'h-inner-flag', ('''        if form.suffix and form.suffix.flag not in all_flags:
            return False
''', '''        if form.suffix and not form.prefix and form.suffix.flag not in all_flags:
            return False
'''))
b('C06', 'h-flags-union2', ('''        if self.suffix:
            flags = flags.union(self.suffix.flags)
        return flags
''', '''        if self.suffix:
            flags = flags.union(self.suffix.flags)
        if self.suffix2:
            flags = flags.union(self.suffix2.flags)
        return flags
'''))
b('C06', 'h-cross-prefix', ('''if suffix_allowed and form.prefix and form.prefix.crossproduct:''', '''if suffix_allowed and form.prefix and (form.prefix.crossproduct or form.prefix2):'''))
b('C06', 'h-strip-replace-suffix', ('''            stem = suffix.replace_regexp.sub(lambda _: suffix.strip, word)
''', '''            stem = word.replace(suffix.add, suffix.strip) if suffix.add else word + suffix.strip
'''), )
# C07
b('C07', 'h-needaffix-any', ('''form.has_affixes() and all(aff.NEEDAFFIX in a.flags for a in form.all_affixes())''', '''form.has_affixes() and any(aff.NEEDAFFIX in a.flags for a in form.all_affixes())'''))
b('C07', 'h-circumfix-or', ('''            if bool(prefix_has) != bool(suffix_has):
''', '''            if prefix_has and not suffix_has:
'''))
b('C07', 'h-keepcase-all', ('''        if captype != form.in_dictionary.captype and aff.KEEPCASE in root_flags:
''', '''        if captype != form.in_dictionary.captype and captype != CapType.ALL and aff.KEEPCASE in root_flags:
'''))
b('C07', 'h-onlyin-root', ('''            return aff.ONLYINCOMPOUND not in all_flags
''', '''            return aff.ONLYINCOMPOUND not in root_flags
'''))
b('C07', 'h-needaffix-prefix', ('''            if aff.NEEDAFFIX in root_flags and not form.has_affixes():
''', '''            if aff.NEEDAFFIX in root_flags and not form.suffix:
'''))
# C08
b('C08', 'h-wordmax', ('''        if len(word_rest) < aff.COMPOUNDMIN * 2 or (aff.COMPOUNDWORDMAX and depth + 1 >= aff.COMPOUNDWORDMAX):
''', '''        if len(word_rest) < aff.COMPOUNDMIN * 2 or (aff.COMPOUNDWORDMAX and depth > aff.COMPOUNDWORDMAX):
'''))
b('C08', 'h-range-end', ('''        for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
            beg = word_rest[0:pos]
            rest''', '''        for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN):
            beg = word_rest[0:pos]
            rest'''))
b('C08', 'h-middle-flag', ('''        if compoundpos == CompoundPos.MIDDLE:
            return aff.COMPOUNDMIDDLE in all_flags
''', '''        if compoundpos == CompoundPos.MIDDLE:
            return aff.COMPOUNDMIDDLE in root_flags
'''))
b('C08', 'h-partial-any', ('''        return any(
            self.partial_re.fullmatch(''.join(fc))
''', '''        return any(
            self.partial_re.match(''.join(fc))
'''), file=DA)
b('C08', 'h-rule-star', ('''functools.reduce(lambda res, part: f"{part}({res})?", parts[::-1])''', '''functools.reduce(lambda res, part: f"{part}({res})", parts[::-1])'''), file=DA)
# C09
b('C09', 'h-dup-last', ('''                if left == right and idx == len(compound.parts) - 2:
''', '''                if left == right and idx == len(compound.parts) - 1:
'''))
b('C09', 'h-triple-left', ('''or len(set(left[-1:] + right[:2])) == 1''', '''and len(set(left[-1:] + right[:2])) == 1'''))
b('C09', 'h-case-dash', ('''and right_c != '-' and left_c != '-':
''', '''and (right_c != '-' or left_c != '-'):
'''))
b('C09', 'h-flag-right', ('''                if self.dic.has_flag(left, aff.COMPOUNDFORBIDFLAG):
''', '''                if self.dic.has_flag(left, aff.COMPOUNDFORBIDFLAG, for_all=True):
'''))
b('C09', 'h-pattern-flag', ('''(not self.right_flag or self.right_flag in right.flags())''', '''(not self.right_flag or self.right_flag in left.flags())'''), file=DA)
# C10
b('C10', 'h-init-lower', ('''            result = [word, *self.lowerfirst(word)]
''', '''            result = [word, *self.lower(word)]
'''), file=CAP)
b('C10', 'h-all-cap', ('''            result = [word, *self.lower(word), *self.capitalize(word)]
        return (captype, result)
    def corrections''', '''            result = [word, *self.lower(word), *self.lowerfirst(word)]
        return (captype, result)
    def corrections'''), file=CAP)
b('C10', 'h-guess-first', ('''            return Type.INIT if word[1:].islower() else Type.HUHINIT
''', '''            return Type.INIT if word[1:2].islower() else Type.HUHINIT
'''), file=CAP)
b('C10', 'h-first-variant', ('''            if compound_forms:
                yield from self.compound_forms(variant, captype=captype, allow_nosuggest=allow_nosuggest)
''', '''            if compound_forms and variant != word.lower():
                yield from self.compound_forms(variant, captype=captype, allow_nosuggest=allow_nosuggest)
'''))
b('C10', 'h-turkic', ('''    L2U = str.maketrans('iı', 'İI')
''', '''    L2U = str.maketrans('iı', 'Iİ')
'''), file=CAP)
# C11
b('C11', 'h-order', ('''        if self.aff.ICONV:
            word = self.aff.ICONV(word)
        if self.aff.IGNORE:
            word = word.translate(self.aff.IGNORE.tr)
''', '''        if self.aff.IGNORE:
            word = word.translate(self.aff.IGNORE.tr)
        if self.aff.ICONV:
            word = self.aff.ICONV(word)
'''))
b('C11', 'h-number-match', ('''NUMBER_REGEXP.fullmatch(word)''', '''NUMBER_REGEXP.match(word.strip())'''))
b('C11', 'h-parts-len', ('''all(is_correct(part) for part in parts if part)''', '''all(is_correct(part) for part in parts if len(part) > 1)'''))
# C12
b('C12', 'h-group', ('''                start = text[:m.start(1)]
''', '''                start = text[:m.start()]
'''))
b('C12', 'h-search', ('''            for m in pat.regexp.finditer(text):
                start = text[:m.start(1)]
                rest = text[m.end(1):]
                for breaking in self.break_word(rest, depth=depth+1):
                    yield [start, *breaking]
''', '''            m = pat.regexp.search(text)
            if m:
                start = text[:m.start(1)]
                rest = text[m.end(1):]
                for breaking in self.break_word(rest, depth=depth+1):
                    yield [start, *breaking]
'''))
b('C12', 'h-depth', ('''        if depth > 10:
            return
        yield [text]
''', '''        yield [text]
        if depth > 1:
            return
'''))
# C13
b('C13', 'h-shortest', ('''                key=lambda r: len(r[0]),
                reverse=True
''', '''                key=lambda r: len(r[0])
'''), file=DA)
b('C13', 'h-anchor', ('''            if pat1.endswith('_'):
                pat1re = pat1re + '$'
''', '''            elif pat1.endswith('_'):
                pat1re = pat1re + '$'
'''), file=DA)
b('C13', 'h-advance', ('''                pos += len(search)
''', '''                pos += len(replacement) or 1
'''), file=DA)
b('C13', 'h-slice', ('''pattern.match(word, pos)''', '''pattern.match(word[pos:])'''), file=DA)
# C14
b('C14', 'h-forbidden-early', ('''            if is_forbidden(text):
                return
            text = self''', '''            if is_forbidden(suggestion.text):
                return
            text = self'''), file=S)
b('C14', 'h-forall', ('''self.dic.has_flag(word, self.aff.FORBIDDENWORD)''', '''self.dic.has_flag(word, self.aff.FORBIDDENWORD, for_all=True)'''), file=S)
b('C14', 'h-oconv-first', ('''            if is_forbidden(text):
                return
            text = self.aff.OCONV(text) if self.aff.OCONV else text
''', '''            text = self.aff.OCONV(text) if self.aff.OCONV else text
            if is_forbidden(text):
                return
'''), file=S)
# C15
b('C15', 'h-add-text', ('''            handled.add(text)
''', '''            handled.add(suggestion.text)
'''), file=S)
b('C15', 'h-ngram-direct', ('''            for res in handle_found(Suggestion(sug, 'ngram'), check_inclusion=True):
                ngrams_seen += 1
                yield res
''', '''            if sug in handled:
                continue
            ngrams_seen += 1
            yield Suggestion(sug, 'ngram')
'''), file=S)
b('C15', 'h-before-oconv', ('''            text = self.aff.OCONV(text) if self.aff.OCONV else text
            if text in handled:
                return
''', '''            if text in handled:
                return
            text = self.aff.OCONV(text) if self.aff.OCONV else text
'''), file=S)
# C16
b('C16', 'h-words-flags', ('''[self.aff.FORBIDDENWORD, self.aff.NOSUGGEST, self.aff.ONLYINCOMPOUND]''', '''[self.aff.FORBIDDENWORD, self.aff.ONLYINCOMPOUND]'''), file=S)
b('C16', 'h-case-variant', ('''            if idx > 0 and is_good_suggestion(variant):
''', '''            if idx > 0 and self.lookup(variant):
'''), file=S)
b('C16', 'h-compound-allow', ('''        if self.aff.COMPOUNDRULE:
            for compound in self.compounds_by_rules(word, allow_nosuggest=allow_nosuggest):
''', '''        if self.aff.COMPOUNDRULE:
            for compound in self.compounds_by_rules(word):
'''))
# C17
b('C17', 'h-any-word', ('''all(is_good_suggestion(word) for word in suggestion.words)''', '''any(is_good_suggestion(word) for word in suggestion.words)'''), file=S)
b('C17', 'h-cap', ('''                return any(self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False, affix_forms=False))
''', '''                return any(self.lookup.good_forms(word, allow_nosuggest=False, affix_forms=False))
'''), file=S)
b('C17', 'h-dashes', ('''                        if self.lookup(candidate, allow_nosuggest=False):
                            yield from handle_found(Suggestion(candidate, 'dashes'))
''', '''                        if self.lookup(sug, allow_nosuggest=False):
                            yield from handle_found(Suggestion(candidate, 'dashes'))
'''), file=S)
# C18
b('C18', 'h-count', ('''                yield res
                count += 1
                if count >= limit:
                    return
''', '''                yield res
                if count >= limit:
                    return
                count += 1
'''), file=S)
b('C18', 'h-phonet', ('''            if phonet_seen >= MAXPHONSUGS:
                break
''', '''            if phonet_seen > MAXPHONSUGS:
                break
'''), file=S)
b('C18', 'h-inner-break', ('''            if ngrams_seen >= self.aff.MAXNGRAMSUGS:
                break
''', '''            if len(handled) >= self.aff.MAXNGRAMSUGS + MAXSUGGESTIONS:
                break
'''), file=S)
b('C18', 'h-limit-zero', ('''        if limit <= 0:
            return
''', ''''''), file=S)
# C19
b('C19', 'h-huhinit', ('''        if cap in (Type.INIT, Type.HUHINIT):
''', '''        if cap == Type.INIT:
'''), file=CAP)
b('C19', 'h-keep', ('''            if (self.aff.KEEPCASE and self.dic.has_flag(text, self.aff.KEEPCASE) and not
                    (self.aff.CHECKSHARPS and 'ß' in text)):
''', '''            if (self.aff.KEEPCASE and self.dic.has_flag(text, self.aff.KEEPCASE) and not
                    self.aff.CHECKSHARPS):
'''), file=S)
b('C19', 'h-oconv-twice', ('''            yield suggestion.replace(text=text)
''', '''            yield suggestion.replace(text=self.aff.OCONV(text) if self.aff.OCONV and ' ' in text else text)
'''), file=S)
b('C19', 'h-forbidden-back', ('''                if text != suggestion.text and is_forbidden(text):
                    text = suggestion.text
''', ''''''), file=S)
# C20
b('C20', 'h-longswap', ('''range(first + 2, min(first + MAX_CHAR_DISTANCE, len(word)))''', '''range(first + 2, min(first + MAX_CHAR_DISTANCE, len(word) - 1))'''), file=P)
b('C20', 'h-forgot-end', ('''        for i in range(len(word) + 1):
            yield word[:i] + c + word[i:]
''', '''        for i in range(len(word)):
            yield word[:i] + c + word[i:]
'''), file=P)
b('C20', 'h-move', ('''            yield word[:topos] + word[frompos] + word[topos:frompos] + word[frompos+1:]
''', '''            yield word[:topos] + word[frompos] + word[topos+1:frompos] + word[frompos+1:]
'''), file=P)
b('C20', 'h-repl-first', ('''        for match in pattern.regexp.finditer(word):
            suggestion''', '''        for match in list(pattern.regexp.finditer(word))[:1]:
            suggestion'''), file=P)
b('C20', 'h-key-upper', ('''        if not layout:
            continue
        pos = layout.find(c)
''', '''        if not layout:
            return
        pos = layout.find(c)
'''), file=P)
# C21
b('C21', 'h-order', ('''        for suggestion in pmt.extrachar(word):
            yield Suggestion(suggestion, 'extrachar')
        for suggestion in pmt.forgotchar(word, self.aff.TRY):
            yield Suggestion(suggestion, 'forgotchar')
''', '''        for suggestion in pmt.forgotchar(word, self.aff.TRY):
            yield Suggestion(suggestion, 'forgotchar')
        for suggestion in pmt.extrachar(word):
            yield Suggestion(suggestion, 'extrachar')
'''), file=S)
b('C21', 'h-good-edits', ('''GOOD_EDITS = ['spaceword', 'uppercase', 'replchars']
''', '''GOOD_EDITS = ['spaceword', 'uppercase', 'replchars', 'mapchars']
'''), file=S)
b('C21', 'h-nosplit', ('''        if not self.aff.NOSPLITSUGS:
            for suggestion_pair in pmt.twowords(word):
                yield MultiWord''', '''        if not self.aff.NOSPLITSUGS or self.use_dash():
            for suggestion_pair in pmt.twowords(word):
                yield MultiWord'''), file=S)
b('C21', 'h-phone', ('''        if not self.aff.PHONE:
            return
''', '''        if not self.aff.PHONE or self.aff.MAXNGRAMSUGS == 0:
            return
'''), file=S)
# C22
b('C22', 'h-maxdiff', ('''    if directive in ['MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDWORDMAX']:
        return int(value)
''', '''    if directive in ['MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDWORDMAX']:
        return int(value) or None
'''), file=RA)
b('C22', 'h-array', ('''            for num, ln in itertools.islice(source, count)
''', '''            for num, ln in itertools.islice(source, max(count, 1))
'''), file=RA)
b('C22', 'h-affix-strip', ('''        strip=('' if strip == '0' else strip),
''', '''        strip=strip.replace('0', ''),
'''), file=RA)
b('C22', 'h-map', ('''(\\([^()]+?\\)|[^()])''', '''(\\([^()]+\\)|\\w)'''), file=RA)
b('C22', 'h-merge', ('''                data[directive][value[0].flag] = value
''', '''                data['SFX'][value[0].flag] = value
'''), file=RA)
# C23
b('C23', 'h-long', ('''FLAG_LONG_REGEXP = re.compile(r'..')
''', '''FLAG_LONG_REGEXP = re.compile(r'\\w\\w')
'''), file=RA)
b('C23', 'h-zip-enc', ('''ZipReader(file.open(dic_path), encoding=context.encoding)''', '''ZipReader(file.open(dic_path), encoding=aff.SET or 'Windows-1252')'''), file=D)
b('C23', 'h-ignore-add', ('''    if context.ignore:
        add = add.translate(context.ignore.tr)
''', '''    if context.ignore and kind == 'SFX':
        add = add.translate(context.ignore.tr)
'''), file=RA)
b('C23', 'h-num', ('''FLAG_NUM_REGEXP = re.compile(r'\\d+(?=,|$)')
''', '''FLAG_NUM_REGEXP = re.compile(r'\\d+(?=,)')
'''), file=RA)
b('C23', 'h-alias-any', ('''        if self.flag_synonyms and string.isdigit():
            return self.flag_synonyms[string]
''', '''        if string in self.flag_synonyms:
            return [string]
'''), file=RA)
# C24
b('C24', 'h-count', ('''        if num == 1 and COUNT_REGEXP.match(line):
            continue
''', '''        if COUNT_REGEXP.match(line):
            continue
'''), file=RD)
b('C24', 'h-slash', ('''            word_with_flags = SLASH_REGEXP.split(word, 1)
            if len(word_with_flags) == 2:
                word, flags = word_with_flags
''', '''            word_with_flags = SLASH_REGEXP.split(word)
            if len(word_with_flags) == 2:
                word, flags = word_with_flags
'''), file=RD)
b('C24', 'h-lower', ('''        lower = aff.casing.lower(word) if captype != CapType.NO else [word]
''', '''        lower = aff.casing.lower(word) if captype == CapType.INIT else [word]
'''), file=RD)
b('C24', 'h-ph-star', ('''RepPattern(pattern[:-2], word[:-1])''', '''RepPattern(pattern[:-1], word[:-1])'''), file=RD)
b('C24', 'h-lower-first', ('''        for lword in lower:
            self.lowercase_index[lword].append(word)
''', '''        if lower:
            self.lowercase_index[lower[0]].append(word)
'''), file=DD)
b('C24', 'h-tab', ('''(not tags_start or tags_start > old_tags_start)''', '''not tags_start'''), file=RD)
# C25
b('C25', 'h-rep', ('''        pattern = re.escape(self.pattern).replace('\\\\^', '^').replace('\\\\$', '$')
        self.regexp = re.compile(pattern)
''', '''        self.regexp = re.compile(self.pattern)
'''), file=DA)
b('C25', 'h-suffix-sub', ('''suffix.replace_regexp.sub(lambda _: suffix.strip, word)''', '''suffix.replace_regexp.sub(suffix.strip, word)'''))
b('C25', 'h-conv', ('''            pat1re = re.escape(pat1clean)
''', '''            pat1re = pat1clean.replace('.', '\\\\.')
'''), file=DA)
# C26
b('C26', 'h-trie-empty', ('''        yield (traversed, cur)
        if not path''', '''        if traversed:
            yield (traversed, cur)
        if not path'''), file=TRIE)
b('C26', 'h-suffix-key', ('''            suffixes[suf.add[::-1]].append(suf)
''', '''            suffixes[suf.add[::-1]] = [suf]
'''), file=DA)
b('C26', 'h-leaf-only', ('''        for _, leaf in self.traverse(self.root, path):
            yield from leaf.payloads
''', '''        for _, leaf in self.traverse(self.root, path):
            if not leaf.children or leaf is self.root:
                yield from leaf.payloads
'''), file=TRIE)
b('C26', 'h-lower', ('''self.aff.prefixes_index.lookup(word)''', '''self.aff.prefixes_index.lookup(word[:-1])'''))
# C27
b('C27', 'h-open-mode', ('''open(path, 'r', encoding=encoding, errors='surrogateescape')''', '''open(path, 'r+', encoding=encoding, errors='surrogateescape')'''), file=RF)
b('C27', 'h-env-path', ('''        for folder in cls.PATHES:
''', '''        for folder in [*os.environ.get('DICPATH', '').split(os.pathsep), *cls.PATHES]:
'''), file=D)
b('C27', 'h-extract', ('''        file = zipfile.ZipFile(path)
''', '''        file = zipfile.ZipFile(path)
        file.extractall(os.path.dirname(path))
'''), file=D)
# C28
b('C28', 'h-skip', ('''        for _ in range(self.line_no):
            self.io.readline()
''', '''        for _ in range(self.line_no - 1):
            self.io.readline()
'''), file=RF)
b('C28', 'h-bom', ('''            if self.line_no == 1 and ln.startswith("\\ufeff"):
                ln = ln.replace("\\ufeff", '')
''', '''            elif ln.startswith("\\ufeff"):
                ln = ''
'''), file=RF)
b('C28', 'h-loop', ('''        while ln != '':
            self.line_no += 1
''', '''        while ln.strip() != '':
            self.line_no += 1
'''), file=RF)
b('C28', 'h-rstrip', ('''            yield (self.line_no, ln.strip())
''', '''            yield (self.line_no, ln.rstrip('\\n'))
'''), file=RF)
# C29
b('C29', 'h-cross', ('''        if suffix.crossproduct and prefix.crossproduct
''', '''        if prefix.crossproduct
'''), file=NG)
b('C29', 'h-strip0', ('''        root = word.stem[0:-len(suf.strip)] if suf.strip else word.stem
''', '''        root = word.stem[0:-len(suf.strip)]
'''), file=NG)
b('C29', 'h-cond', ('''        if suffix.cond_regexp.search(word.stem) and similar_to.endswith(suffix.add)
''', '''        if suffix.cond_regexp.search(word.stem) or similar_to.endswith(suffix.add)
'''), file=NG)
b('C29', 'h-prefix-ends', ('''similar_to.startswith(prefix.add)''', '''similar_to.startswith(prefix.add[:1])'''), file=NG)
b('C29', 'h-variant-real', ('''(score, variant, root.stem))
''', '''(score, variant, variant))
'''), file=NG)
# C30
b('C30', 'h-seen', ('''        if score > 1000:
            seen = True
        elif''', '''        if score > 1000:
            pass
        elif'''), file=NG)
b('C30', 'h-onlymax', ('''            if found > 0 or onlymaxdiff:
                return
''', '''            if found > 0 and onlymaxdiff:
                return
'''), file=NG)
b('C30', 'h-known-eq', ('''        if not any(known_word in value for known_word in known):
''', '''        if value not in known:
'''), file=NG)
b('C30', 'h-known-in', ('''known_word in value for''', '''value in known_word for'''), file=NG)
b('C30', 'h-inclusion', ('''            if check_inclusion and any(previous.lower() in text.lower() for previous in handled):
                return
''', '''            if check_inclusion and any(previous.lower() == text.lower() for previous in handled):
                return
'''), file=S)
b('C30', 'h-found', ('''            found += 1
            yield value
''', '''            yield value
'''), file=NG)
# C31
b('C31', 'h-sort', ('''    guesses2 = sorted(guesses2, key=itemgetter(0), reverse=True)
    yield from''', '''    guesses2 = sorted(guesses2, key=itemgetter(0))
    yield from'''), file=NG)
b('C31', 'h-no-sort', ('''    guesses2 = sorted(guesses2, key=itemgetter(0), reverse=True)
    for''', '''    for'''), file=PH)
b('C31', 'h-heap', ('''        if len(scores) > MAX_ROOTS:
            heapq.heappushpop(scores, (score, word.stem))
        else:
            heapq.heappush(scores, (score, word.stem))
''', '''        if len(scores) <= MAX_ROOTS:
            heapq.heappush(scores, (score, word.stem))
'''), file=PH)
b('C31', 'h-smallest', ('''    roots = heapq.nlargest(MAX_ROOTS, root_scores)
''', '''    roots = heapq.nsmallest(MAX_ROOTS, root_scores)
'''), file=NG)
b('C31', 'h-lcs', ('''            elif c[i-1][j] >= c[i][j-1]:
''', '''            elif c[i-1][j] <= c[i][j-1]:
'''), file=SM)
b('C31', 'h-ngram-penalty', ('''        penalty = abs(l2 - l1) - 2
''', '''        penalty = (l1 - l2) - 2
'''), file=SM)
b('C31', 'h-fact', ('''fact = (10.0 - maxdiff) / 5.0 if maxdiff >= 0 else 1.0''', '''fact = (10.0 - maxdiff) / 5.0 if maxdiff > 0 else 1.0'''), file=NG)
b('C31', 'h-max', ('''                score = max(score, root_score(misspelling, variant))
''', '''                score = root_score(misspelling, variant)
'''), file=NG)

"""Wrong edits written without looking at what the checks find (the fourth batch)"""
BUGS = []

L = 'algo/lookup.py'
S = 'algo/suggest.py'
P = 'algo/permutations.py'
CAP = 'algo/capitalization.py'
SM = 'algo/string_metrics.py'
NG = 'algo/ngram_suggest.py'
PH = 'algo/phonet_suggest.py'
TR = 'algo/trie.py'
DA = 'data/aff.py'
DD = 'data/dic.py'
RA = 'readers/aff.py'
RD = 'readers/dic.py'
RF = 'readers/file_reader.py'
D = 'dictionary.py'


def b(prop, name, *pairs, file=L):
    BUGS.append((prop, name, file, pairs))


b('C01', 'j-flags-update', ('''            flags = flags.union(self.prefix.flags)
''', '''            flags.update(self.prefix.flags)
'''))
b('C01', 'j-sort-words', ('''        self.words_for_ngram = [word for word in self.dic.words if not bad_flags.intersection(word.flags)]
''', '''        self.words_for_ngram = [word for word in self.dic.words if not bad_flags.intersection(word.flags)]
        self.recent = []
'''), ('''        captype, variants = self.aff.casing.corrections(word)
''', '''        self.recent.append(word)
        captype, variants = self.aff.casing.corrections(word)
'''), file=S)
b('C01', 'j-parts-extend', ('''                parts = [*prev_parts, homonym]
                flag_sets = [w.flags for w in parts]
                compoundrules''', '''                parts = prev_parts
                parts.append(homonym)
                flag_sets = [w.flags for w in parts]
                compoundrules'''))
b('C02', 'j-handled-order', ('''                    known={*(word.lower() for word in handled)},
''', '''                    known=list({word.lower() for word in handled})[-10:],
'''), file=S)
b('C02', 'j-map-set', ('''        for options in maptable:
            for option in options:
''', '''        for options in maptable:
            for option in set(options):
'''), file=P)
b('C03', 'j-map-start', ('''                        for variant in mapchars_internal(replaced, pos + len(other)):
''', '''                        for variant in mapchars_internal(replaced, pos):
'''), file=P)
b('C03', 'j-key-loop', ('''            pos = layout.find(c, pos+1)
''', '''            pos = layout.find(c, max(pos, 1))
'''), file=P)
b('C03', 'j-conv-pos', ('''                res += replacement
                pos += len(search)
''', '''                res += replacement
                pos += len(replacement)
'''), file=DA)
b('C04', 'j-triple', ('''            if aff.SIMPLIFIEDTRIPLE and beg[-1] == rest[0]:
''', '''            if aff.SIMPLIFIEDTRIPLE and (beg[-1] == rest[0] or beg[-2] == rest[1]):
'''))
b('C04', 'j-swap5', ('''    if len(word) in [4,  5]:
''', '''    if len(word) in [3, 4,  5]:
'''), ('''            yield word[0] + word[2] + word[1] + word[-1] + word[-2]
''', '''            yield word[0] + word[2] + word[1] + word[5] + word[-2]
'''), file=P)
b('C05', 'j-forbidden-prefix', ('''            if (not with_forbidden and self.aff.FORBIDDENWORD and
                    (compoundpos or form.has_affixes()) and
''', '''            if (not with_forbidden and self.aff.FORBIDDENWORD and
                    (compoundpos or form.suffix) and
'''))
b('C05', 'j-with-forbidden', ('''            if not with_forbidden and self.aff.FORBIDDENWORD and self.aff.FORBIDDENWORD in form.in_dictionary.flags:
                return False
''', '''            if not with_forbidden and self.aff.FORBIDDENWORD and self.aff.FORBIDDENWORD in form.in_dictionary.flags:
                return not form.is_base()
'''))
b('C05', 'j-forbidden-rules', ('''                if aff.FORBIDDENWORD and aff.FORBIDDENWORD in homonym.flags:
                    continue
''', '''                if aff.FORBIDDENWORD and aff.FORBIDDENWORD in homonym.flags and not prev_parts:
                    continue
'''))
b('C06', 'j-cond-word', ('''            if not suffix.cond_regexp.search(stem):
                continue
''', '''            if not suffix.cond_regexp.search(word):
                continue
'''))
b('C06', 'j-nested-flag', ('''                for form2 in self.deprefix(stem,
                                           required_flags=[prefix.flag, *required_flags],
''', '''                for form2 in self.deprefix(stem,
                                           required_flags=required_flags,
'''))
b('C06', 'j-prefix-flag', ('''        if form.prefix and form.prefix.flag not in all_flags:
            return False
''', '''        if form.prefix and not form.suffix and form.prefix.flag not in all_flags:
            return False
'''))
b('C06', 'j-cross-only', ('''                (not crossproduct or suffix.crossproduct) and
''', '''                (not crossproduct or nested or suffix.crossproduct) and
'''))
b('C07', 'j-onlyincompound', ('''            return aff.ONLYINCOMPOUND not in all_flags
''', '''            return aff.ONLYINCOMPOUND not in root_flags
'''))
b('C07', 'j-circumfix-one', ('''            if bool(prefix_has) != bool(suffix_has):
                return False
''', '''            if prefix_has and not suffix_has:
                return False
'''))
b('C07', 'j-keepcase-sharps', ('''            if not (aff.CHECKSHARPS and 'ß' in form.in_dictionary.stem):
                return False
''', '''            if not aff.CHECKSHARPS:
                return False
'''))
b('C08', 'j-wordmax', ('''(aff.COMPOUNDWORDMAX and depth + 1 >= aff.COMPOUNDWORDMAX):
''', '''(aff.COMPOUNDWORDMAX and depth >= aff.COMPOUNDWORDMAX):
'''))
b('C08', 'j-end-flag', ('''        if compoundpos == CompoundPos.END:
            return aff.COMPOUNDEND in all_flags
''', '''        if compoundpos == CompoundPos.END:
            return aff.COMPOUNDEND in all_flags or aff.COMPOUNDMIDDLE in all_flags
'''))
b('C08', 'j-min-range', ('''        for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
            beg = word_rest[0:pos]
            rest = word_rest[pos:]
''', '''        for pos in range(aff.COMPOUNDMIN, len(word_rest)):
            beg = word_rest[0:pos]
            rest = word_rest[pos:]
'''))
b('C08', 'j-forbid-end', ('''                                         compoundpos=CompoundPos.END,
                                         prefix_flags=permitflags,
                                         forbidden_flags=forbidden_flags,
''', '''                                         compoundpos=CompoundPos.END,
                                         prefix_flags=permitflags,
'''))
b('C09', 'j-rep-right', ('''                for candidate in pmt.replchars(left + right, aff.REP):
''', '''                for candidate in pmt.replchars(right, aff.REP):
'''))
b('C09', 'j-triple-and', ('''                if len(set(left[-2:] + right[:1])) == 1 or len(set(left[-1:] + right[:2])) == 1:
''', '''                if len(set(left[-2:] + right[:2])) == 1:
'''))
b('C09', 'j-case-left', ('''                if (right_c == right_c.upper() or left_c == left_c.upper()) and right_c != '-' and left_c != '-':
''', '''                if right_c == right_c.upper() and right_c != '-' and left_c != '-':
'''))
b('C10', 'j-init-lower', ('''        elif captype == Type.INIT:
            result = [word, *self.lower(word)]
        elif captype == Type.HUHINIT:
            result = [word, *self.lowerfirst(word)]
''', '''        elif captype in (Type.INIT, Type.HUHINIT):
            result = [word, *self.lower(word)]
'''), file=CAP)
b('C10', 'j-turkic', ('''    L2U = str.maketrans('iı', 'İI')
''', '''    L2U = str.maketrans('i', 'İ')
'''), ('''        return super().upper(word.translate(self.L2U))
''', '''        return super().upper(word.translate(self.U2L))
'''), file=CAP)
b('C10', 'j-german-guess', ('''        if 'ß' in word and super().guess(word.replace('ß', '')) == Type.ALL:
''', '''        if 'ß' in word and super().guess(word.replace('ß', '')) != Type.NO:
'''), file=CAP)
b('C11', 'j-iconv-after', ('''        if self.aff.ICONV:
            word = self.aff.ICONV(word)
        if self.aff.IGNORE:
            word = word.translate(self.aff.IGNORE.tr)
''', '''        if self.aff.IGNORE:
            word = word.translate(self.aff.IGNORE.tr)
        elif self.aff.ICONV:
            word = self.aff.ICONV(word)
'''))
b('C11', 'j-number-search', ('''        if NUMBER_REGEXP.fullmatch(word):
''', '''        if NUMBER_REGEXP.fullmatch(word.rstrip('.')):
'''))
b('C11', 'j-empty-parts', ('''            if all(is_correct(part) for part in parts if part):
''', '''            if all(is_correct(part) for part in parts if len(part) > 1):
'''))
b('C12', 'j-depth', ('''        if depth > 10:
            return
''', '''        if depth > 1:
            return
'''))
b('C12', 'j-break-dot', ('''            self.regexp = re.compile(f".({pattern}).")
''', '''            self.regexp = re.compile(f".({pattern})")
'''), file=DA)
b('C13', 'j-shortest', ('''                key=lambda r: len(r[0]),
                reverse=True
''', '''                key=lambda r: len(r[0])
'''), file=DA)
b('C13', 'j-anchor-both', ('''            if pat1.endswith('_'):
                pat1re = pat1re + '$'
''', '''            elif pat1.endswith('_'):
                pat1re = pat1re + '$'
'''), file=DA)
b('C14', 'j-forbidden-before', ('''            text = suggestion.text
            if (self''', '''            text = suggestion.text
            if is_forbidden(text):
                return
            if (self'''), ('''            if is_forbidden(text):
                return
            text = self.aff.OCONV''', '''            text = self.aff.OCONV'''), file=S)
b('C15', 'j-handled-kind', ('''            if text in handled:
                return
''', '''            if text in handled and not check_inclusion:
                return
'''), file=S)
b('C15', 'j-handled-source', ('''            handled.add(text)
''', '''            handled.add(suggestion.text)
'''), file=S)
b('C16', 'j-nosuggest-dash', ('''                        if self.lookup(candidate, allow_nosuggest=False):
''', '''                        if self.lookup(candidate):
'''), file=S)
b('C16', 'j-nosuggest-root', ('''        if not allow_nosuggest and aff.NOSUGGEST in root_flags:
            return False
''', '''        if not allow_nosuggest and aff.NOSUGGEST in root_flags and form.is_base():
            return False
'''))
b('C17', 'j-multi-any', ('''                    if all(is_good_suggestion(word) for word in suggestion.words):
''', '''                    if all(is_good_suggestion(word) for word in suggestion.words if len(word) > 1):
'''), file=S)
b('C17', 'j-case-unchecked', ('''            if idx > 0 and is_good_suggestion(variant):
''', '''            if idx > 0 and (is_good_suggestion(variant) or captype == CapType.HUH):
'''), file=S)
b('C18', 'j-phonet-limit', ('''            if phonet_seen >= MAXPHONSUGS:
                break
''', '''            if phonet_seen > MAXPHONSUGS:
                break
'''), file=S)
b('C18', 'j-limit-swapped', ('''            for suggestion in self.edit_suggestions(variant, handle_found, limit=MAXSUGGESTIONS, compounds=False):
''', '''            for suggestion in self.edit_suggestions(variant, handle_found, limit=MAXSUGGESTIONS * len(variants), compounds=False):
'''), file=S)
b('C19', 'j-oconv-original', ('''            text = self.aff.OCONV(text) if self.aff.OCONV else text
''', '''            text = self.aff.OCONV(suggestion.text) if self.aff.OCONV else text
'''), file=S)
b('C19', 'j-coerce-huhinit', ('''        if cap in (Type.INIT, Type.HUHINIT):
            return''', '''        if cap in (Type.INIT, Type.HUHINIT, Type.HUH):
            return'''), file=CAP)
b('C20', 'j-double', ('''        if word[i-2] == word[i] and word[i-3] == word[i-1]:
''', '''        if word[i-2] == word[i] or word[i-3] == word[i-1]:
'''), file=P)
b('C20', 'j-long-distance', ('''        for second in range(first + 2, min(first + MAX_CHAR_DISTANCE, len(word))):
''', '''        for second in range(first + 1, min(first + MAX_CHAR_DISTANCE, len(word))):
'''), file=P)
b('C20', 'j-key-right', ('''            if pos + 1 < len(layout) and layout[pos+1] != '|':
''', '''            elif pos + 1 < len(layout) and layout[pos+1] != '|':
'''), file=P)
b('C21', 'j-order', ('''        for suggestion in pmt.extrachar(word):
            yield Suggestion(suggestion, 'extrachar')
        for suggestion in pmt.forgotchar(word, self.aff.TRY):
            yield Suggestion(suggestion, 'forgotchar')
''', '''        for suggestion in pmt.forgotchar(word, self.aff.TRY):
            yield Suggestion(suggestion, 'forgotchar')
        for suggestion in pmt.extrachar(word):
            yield Suggestion(suggestion, 'extrachar')
'''), file=S)
b('C21', 'j-good-stop', ('''        if good_edits_found:
            return
''', '''        if good_edits_found and not self.aff.PHONE:
            return
'''), file=S)
b('C22', 'j-maxdiff', ('''    if directive in ['MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDWORDMAX']:
        return int(value)
''', '''    if directive in ['MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDWORDMAX']:
        return abs(int(value))
'''), file=RA)
b('C22', 'j-crossproduct', ('''        crossproduct=(crossproduct == 'Y'),
''', '''        crossproduct=(crossproduct != 'N'),
'''), file=RA)
b('C22', 'j-synonym', ('''SYNONYMS = {'PSEUDOROOT': 'NEEDAFFIX', 'COMPOUNDLAST': 'COMPOUNDEND'}
''', '''SYNONYMS = {'PSEUDOROOT': 'NEEDAFFIX', 'COMPOUNDLAST': 'COMPOUNDMIDDLE'}
'''), file=RA)
b('C23', 'j-ignore-flags', ('''        if context.ignore:
            word = word.translate(context.ignore.tr)
''', '''        if context.ignore and not flags:
            word = word.translate(context.ignore.tr)
'''), file=RD)
b('C23', 'j-num-regexp', ('''FLAG_NUM_REGEXP = re.compile(r'\\d+(?=,|$)')
''', '''FLAG_NUM_REGEXP = re.compile(r'\\d+')
'''), ('''        if self.flag_format == 'num':
            return FLAG_NUM_REGEXP.findall(string)
''', '''        if self.flag_format == 'num':
            return FLAG_NUM_REGEXP.findall(string)[:1]
'''), file=RA)
b('C24', 'j-tab', ('''        if old_tags_start != -1 and (not tags_start or tags_start > old_tags_start):
''', '''        if old_tags_start != -1 and not tags_start:
'''), file=RD)
b('C24', 'j-count-line', ('''        if num == 1 and COUNT_REGEXP.match(line):
''', '''        if COUNT_REGEXP.match(line):
'''), file=RD)
b('C24', 'j-lower-index', ('''        lower = aff.casing.lower(word) if captype != CapType.NO else [word]
''', '''        lower = aff.casing.lower(word) if captype == CapType.ALL else [word]
'''), file=RD)
b('C25', 'j-rep-escape', ('''        pattern = re.escape(self.pattern).replace('\\\\^', '^').replace('\\\\$', '$')
        self.regexp = re.compile(pattern)
''', '''        pattern = self.pattern.replace('.', '\\\\.')
        self.regexp = re.compile(pattern)
'''), file=DA)
b('C26', 'j-trie-empty', ('''        for suf in itertools.chain.from_iterable(self.SFX.values()):
            suffixes[suf.add[::-1]].append(suf)
''', '''        for suf in itertools.chain.from_iterable(self.SFX.values()):
            suffixes[suf.add[::-1]] = [suf]
'''), file=DA)
b('C27', 'j-write-cache', ('''        aff, context = readers.read_aff(FileReader(path + '.aff'))
''', '''        open(path + '.lock', 'w').close()
        aff, context = readers.read_aff(FileReader(path + '.aff'))
'''), file=D)
b('C28', 'j-bom-any', ('''            if self.line_no == 1 and ln.startswith("\\ufeff"):
''', '''            if ln.startswith("\\ufeff"):
'''), file=RF)
b('C28', 'j-skip', ('''        for _ in range(self.line_no):
''', '''        for _ in range(self.line_no - 1):
'''), file=RF)
b('C29', 'j-cond', ('''        if prefix.cond_regexp.search(word.stem) and similar_to.startswith(prefix.add)
''', '''        if similar_to.startswith(prefix.add)
'''), file=NG)
b('C29', 'j-cross', ('''        if suffix.crossproduct and prefix.crossproduct
''', '''        if suffix.crossproduct
'''), file=NG)
b('C30', 'j-found', ('''            if found > 0 or onlymaxdiff:
                return
''', '''            if found > 0 and onlymaxdiff:
                return
'''), file=NG)
b('C30', 'j-seen', ('''            if found > 0 or onlymaxdiff:
                return
            seen = True
''', '''            if found > 0 or onlymaxdiff:
                return
'''), file=NG)
b('C31', 'j-nlargest', ('''    guesses = heapq.nlargest(MAX_GUESSES, guess_scores)
''', '''    guesses = guess_scores[:MAX_GUESSES]
'''), file=NG)
b('C31', 'j-alt-last', ('''                score = max(score, root_score(misspelling, variant))
''', '''                score = root_score(misspelling, variant)
'''), file=NG)
b('C31', 'j-weighted', ('''                if pos == 0 or pos + ngram_size == l1:
''', '''                if pos == 0 and pos + ngram_size == l1:
'''), file=SM)

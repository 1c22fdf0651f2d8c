"""Behaviour-preserving edits: readers, tables, index, larger rewritings (the seventh batch)"""
TRIALS = []

L = 'algo/lookup.py'
S = 'algo/suggest.py'
P = 'algo/permutations.py'
CAP = 'algo/capitalization.py'
SM = 'algo/string_metrics.py'
NG = 'algo/ngram_suggest.py'
PH = 'algo/phonet_suggest.py'
TR = 'algo/trie.py'
DA = 'data/aff.py'
DD = 'data/dic.py'
RA = 'readers/aff.py'
RD = 'readers/dic.py'
RF = 'readers/file_reader.py'
D = 'dictionary.py'


def t(name, *pairs, file=S):
    TRIALS.append((name, file, pairs))


# readers

t('dic-tags-helper', ('''        tags_match = TAG_REGEXP.search(line)
        tags_start: Optional[int] = None
        if tags_match:
            tags_start = tags_match.start()
        old_tags_start = line.find("\\t")
        if old_tags_start != -1 and (not tags_start or tags_start > old_tags_start):
            tags_start = old_tags_start
        if tags_start:
''', '''        tags_start = find_tags(line)
        if tags_start:
'''), ('''def parse_data(''', '''def find_tags(line: str) -> Optional[int]:
    match = TAG_REGEXP.search(line)
    start = match.start() if match else None
    tab = line.find("\\t")
    if tab == -1:
        return start
    if not start or tab < start:
        return tab
    return start


def parse_data('''), file=RD)
t('dic-slash-helper', ('''        if word.startswith('/'):
            flags = ''
        else:
            word_with_flags = SLASH_REGEXP.split(word, 1)
            if len(word_with_flags) == 2:
                word, flags = word_with_flags
            else:
                flags = ''
''', '''        flags = ''
        if not word.startswith('/'):
            parts = SLASH_REGEXP.split(word, 1)
            if len(parts) > 1:
                word, flags = parts
'''), file=RD)
t('dic-ph-helper', ('''        alt_spellings = []
        if 'ph' in data:
            for pattern in data['ph']:
                if pattern.endswith('*'):
                    aff.REP.append(RepPattern(pattern[:-2], word[:-1]))
                elif '->' in pattern:
                    fro, _, to = pattern.partition('->')
                    aff.REP.append(RepPattern(fro, to))
                else:
                    aff.REP.append(RepPattern(pattern, word))
                    alt_spellings.append(pattern)
''', '''        alt_spellings = []
        for pattern in data.get('ph', []):
            if pattern.endswith('*'):
                replacement = RepPattern(pattern[:-2], word[:-1])
            elif '->' in pattern:
                fro, _, to = pattern.partition('->')
                replacement = RepPattern(fro, to)
            else:
                replacement = RepPattern(pattern, word)
                alt_spellings.append(pattern)
            aff.REP.append(replacement)
'''), file=RD)
t('dic-lower-if', ('''        lower = aff.casing.lower(word) if captype != CapType.NO else [word]
''', '''        if captype == CapType.NO:
            lower = [word]
        else:
            lower = aff.casing.lower(word)
'''), file=RD)
t('dic-unescape', ('''        if r'\\/' in word:
            word = word.replace(r'\\/', '/')
''', '''        word = word.replace('\\\\/', '/')
'''), file=RD)
t('dic-entry-inline', ('''        word_obj = dic.Word(
            stem=word,
            flags={*context.parse_flags(flags)},
            data=data,
            captype=captype,
            alt_spellings=alt_spellings
        )
        result.append(word_obj, lower=lower)
''', '''        entry_flags = set(context.parse_flags(flags))
        result.append(dic.Word(word, entry_flags, data, alt_spellings, captype), lower=lower)
'''), file=RD)
t('dic-make-entry', ('''        if context.ignore:
            word = word.translate(context.ignore.tr)
''', ''''''), ('''        captype = aff.casing.guess(word)
        lower = aff.casing.lower(word) if captype != CapType.NO else [word]
        alt_spellings = []
''', '''        if context.ignore:
            word = word.translate(context.ignore.tr)
        alt_spellings = []
'''), ('''        word_obj = dic.Word(
''', '''        captype = aff.casing.guess(word)
        lower = [word] if captype == CapType.NO else aff.casing.lower(word)
        word_obj = dic.Word(
'''), file=RD)
t('aff-affix-line', ('''    cond = rest[0] if rest else ''
    add, _, flags = add.partition('/')
    if context.ignore:
        add = add.translate(context.ignore.tr)
    return kind_class(
        flag=flag,
        crossproduct=(crossproduct == 'Y'),
        strip=('' if strip == '0' else strip),
        add=('' if add == '0' else add),
        condition=cond,
        flags={*context.parse_flags(flags)}
    )
''', '''    def zero(text):
        return text if text != '0' else ''

    add, _, flags = add.partition('/')
    if context.ignore:
        add = add.translate(context.ignore.tr)
    condition = rest[0] if rest else ''
    own_flags = set(context.parse_flags(flags))
    return kind_class(flag, crossproduct == 'Y', zero(strip), zero(add), condition, own_flags)
'''), file=RA)
t('aff-context-method', ('''        if directive == 'FLAG':
            context.flag_format = value
        elif directive == 'AF':
            context.flag_synonyms = value
        elif directive == 'SET':
            context.encoding = value
            source.reset_encoding(value)
        elif directive == 'IGNORE':
            context.ignore = value
        if directive == 'FLAG' and value == 'UTF-8':
            context.encoding = 'UTF-8'
            data['SET'] = 'UTF-8'
            source.reset_encoding('UTF-8')
''', '''        update_context(context, directive, value)
        if directive == 'SET':
            source.reset_encoding(value)
        if directive == 'FLAG' and value == 'UTF-8':
            context.encoding = 'UTF-8'
            data['SET'] = 'UTF-8'
            source.reset_encoding('UTF-8')
'''), ('''def read_directive(''', '''def update_context(context: Context, directive: str, value: Any):
    if directive == 'FLAG':
        context.flag_format = value
    elif directive == 'AF':
        context.flag_synonyms = value
    elif directive == 'SET':
        context.encoding = value
    elif directive == 'IGNORE':
        context.ignore = value


def read_directive('''), file=RA)
t('aff-flag-set', ('''        return list(self.split_flags(string))[0]
''', '''        first, *_ = self.split_flags(string)
        return first
'''), file=RA)
t('aff-split-dispatch', ('''        if self.flag_format == 'short':
            return string
        if self.flag_format == 'long':
            return FLAG_LONG_REGEXP.findall(string)
        if self.flag_format == 'num':
            return FLAG_NUM_REGEXP.findall(string)
        if self.flag_format == 'UTF-8':
            return string
        raise ValueError(''', '''        if self.flag_format in ('short', 'UTF-8'):
            return string
        pattern = {'long': FLAG_LONG_REGEXP, 'num': FLAG_NUM_REGEXP}.get(self.flag_format)
        if pattern is not None:
            return pattern.findall(string)
        raise ValueError('''), file=RA)
t('aff-numbered', ('''        return {
            str(i + 1): {*context.parse_flags(ln[0])}
            for i, ln in enumerate(_read_array())
        }
''', '''        aliases = {}
        for number, line in enumerate(_read_array(), start=1):
            aliases[str(number)] = set(context.parse_flags(line[0]))
        return aliases
'''), file=RA)
t('aff-map-loop', ('''        return [
            [
                re.sub(r'[()]', '', s)
                for s in re.findall(r'(\\([^()]+?\\)|[^()])', chars)
            ]
            for chars, *_ in _read_array()
        ]
''', '''        groups = []
        for chars, *_ in _read_array():
            found = re.findall(r'(\\([^()]+?\\)|[^()])', chars)
            groups.append([text.replace('(', '').replace(')', '') for text in found])
        return groups
'''), file=RA)
t('aff-phone-rows', ('''            (search, '' if replacement == '_' else replacement)
            for search, replacement, *_ in _read_array()
        ])
''', '''            (row[0], row[1] if row[1] != '_' else '')
            for row in _read_array()
        ])
'''), file=RA)
t('aff-directive-continue', ('''        if directive in ['SFX', 'PFX']:
            if value:
                data[directive][value[0].flag] = value
        else:
            data[directive] = value
''', '''        if directive not in ('SFX', 'PFX'):
            data[directive] = value
        elif value:
            flag = value[0].flag
            data[directive][flag] = value
'''), file=RA)
t('reader-bom', ('''            if self.line_no == 1 and ln.startswith("\\xef\\xbb\\xbf"):
                ln = ln.replace("\\xef\\xbb\\xbf", '')
            if self.line_no == 1 and ln.startswith("\\ufeff"):
                ln = ln.replace("\\ufeff", '')
            yield (self.line_no, ln.strip())
            ln = self.io.readline()
''', '''            if self.line_no == 1:
                for mark in ("\\xef\\xbb\\xbf", "\\ufeff"):
                    if ln.startswith(mark):
                        ln = ln.replace(mark, '')
            yield (self.line_no, ln.strip())
            ln = self.io.readline()
'''), file=RF)
t('reader-while-true', ('''        ln = self.io.readline()
        while ln != '':
            self.line_no += 1
''', '''        while True:
            ln = self.io.readline()
            if not ln:
                return
            self.line_no += 1
'''), ('''            yield (self.line_no, ln.strip())
            ln = self.io.readline()
''', '''            yield (self.line_no, ln.strip())
'''), file=RF)
t('reader-filter-inside', ('''        self.iter = filter(lambda l: l[1] != '', self.readlines())
''', '''        self.iter = ((num, text) for num, text in self.readlines() if text)
'''), file=RF)
t('parse-data-flow', ('''        if ':' in tag_str:
            tag, _, content = tag_str.partition(':')
            if content:
                data[tag].append(content)
        elif''', '''        tag, colon, content = tag_str.partition(':')
        if colon:
            if content:
                data[tag].append(content)
        elif'''), file=RD)
t('from-zip-next', ('''        aff_path = [name for name in file.namelist() if name.endswith('.aff')][0]
        dic_path = [name for name in file.namelist() if name.endswith('.dic')][0]
''', '''        names = file.namelist()
        aff_path = next(name for name in names if name.endswith('.aff'))
        dic_path = next(name for name in names if name.endswith('.dic'))
'''), file=D)
t('from-files-helper', ('''        if path in cls.DISTRIBUTED and not os.path.exists(path + '.aff'):
            path = os.path.join(os.path.dirname(os.path.realpath(__file__)), 'data', cls.DISTRIBUTED[path], path)
''', '''        if not os.path.exists(path + '.aff') and path in cls.DISTRIBUTED:
            here = os.path.dirname(os.path.realpath(__file__))
            path = os.path.join(here, 'data', cls.DISTRIBUTED[path], path)
'''), file=D)

# tables

t('conv-row-class', ('''            pat1clean = pat1.replace('_', '')
            pat1re = re.escape(pat1clean)
            if pat1.startswith('_'):
                pat1re = '^' + pat1re
            if pat1.endswith('_'):
                pat1re = pat1re + '$'
            return (pat1clean, re.compile(pat1re), pat2.replace('_', ' '))
        self.table = sorted([compile_row(*row) for row in self.pairs], key=itemgetter(0))
''', '''            clean = pat1.replace('_', '')
            prefix = '^' if pat1.startswith('_') else ''
            suffix = '$' if pat1.endswith('_') else ''
            return (clean, re.compile(f'{prefix}{re.escape(clean)}{suffix}'), pat2.replace('_', ' '))
        rows = [compile_row(pat1, pat2) for pat1, pat2 in self.pairs]
        rows.sort(key=lambda row: row[0])
        self.table = rows
'''), file=DA)
t('break-regexp', ('''        if pattern.startswith('^') or pattern.endswith('$'):
            self.regexp = re.compile(f"({pattern})")
        else:
            self.regexp = re.compile(f".({pattern}).")
''', '''        anchored = pattern[:1] == '^' or pattern[-1:] == '$'
        around = '' if anchored else '.'
        self.regexp = re.compile(around + '(' + pattern + ')' + around)
'''), file=DA)
t('index-build', ('''        suffixes = defaultdict(list)
        for suf in itertools.chain.from_iterable(self.SFX.values()):
            suffixes[suf.add[::-1]].append(suf)
        self.suffixes_index = Trie(suffixes)
        prefixes = defaultdict(list)
        for pref in itertools.chain.from_iterable(self.PFX.values()):
            prefixes[pref.add].append(pref)
        self.prefixes_index = Trie(prefixes)
''', '''        def index(table, key):
            found = defaultdict(list)
            for affixes in table.values():
                for affix in affixes:
                    found[key(affix)].append(affix)
            return Trie(found)

        self.suffixes_index = index(self.SFX, lambda affix: affix.add[::-1])
        self.prefixes_index = index(self.PFX, lambda affix: affix.add)
'''), file=DA)
t('casing-choice', ('''        if self.CHECKSHARPS:
            self.casing = GermanCasing()
        elif self.LANG in ['tr', 'tr_TR', 'az', 'crh']:     # TODO: more robust language code check!
            self.casing = TurkicCasing()
        else:
            self.casing = Casing()
''', '''        turkic = self.LANG in ('tr', 'tr_TR', 'az', 'crh')
        kind = GermanCasing if self.CHECKSHARPS else TurkicCasing if turkic else Casing
        self.casing = kind()
'''), file=DA)
t('rule-combinations', ('''        relevant_flags = [self.flags.intersection(f) for f in flag_sets]
        return any(
            self.re.fullmatch(''.join(fc))
            for fc in itertools.product(*relevant_flags)
        )
    def partial_match(self, flag_sets):
        relevant_flags = [self.flags.intersection(f) for f in flag_sets]
        return any(
            self.partial_re.fullmatch(''.join(fc))
            for fc in itertools.product(*relevant_flags)
        )
''', '''        return self._match(self.re, flag_sets)

    def partial_match(self, flag_sets):
        return self._match(self.partial_re, flag_sets)

    def _match(self, regexp, flag_sets):
        relevant_flags = [self.flags & f for f in flag_sets]
        for combination in itertools.product(*relevant_flags):
            if regexp.fullmatch(''.join(combination)):
                return True
        return False
'''), file=DA)
t('pattern-sides', ('''        return (left.stem.endswith(self.left_stem)) and (right.stem.startswith(self.right_stem)) and \\
               (not self.left_no_affix or not left.is_base()) and \\
               (not self.right_no_affix or not right.is_base()) and \\
               (not self.left_flag or self.left_flag in left.flags()) and \\
               (not self.right_flag or self.right_flag in right.flags())
''', '''        def side(form, no_affix, flag):
            if no_affix and form.is_base():
                return False
            return not flag or flag in form.flags()

        if not left.stem.endswith(self.left_stem) or not right.stem.startswith(self.right_stem):
            return False
        return side(left, self.left_no_affix, self.left_flag) and side(right, self.right_no_affix, self.right_flag)
'''), file=DA)
t('phonet-match', ('''            if self.start and pos > 0:
                return False
            if self.end:
                return self.search.fullmatch(word, pos)
            return self.search.match(word, pos)
''', '''            if pos > 0 and self.start:
                return None
            matcher = self.search.fullmatch if self.end else self.search.match
            return matcher(word, pos)
'''), file=DA)
t('dic-append-setdefault', ('''        self.index = defaultdict(list)
        self.lowercase_index = defaultdict(list)
''', '''        self.index = {}
        self.lowercase_index = {}
'''), ('''        self.index[word.stem].append(word)
        for lword in lower:
            self.lowercase_index[lword].append(word)
''', '''        self.index.setdefault(word.stem, []).append(word)
        for lword in lower:
            self.lowercase_index.setdefault(lword, []).append(word)
'''), file=DD)
t('homonyms-choice', ('''        if ignorecase:
            return self.lowercase_index.get(stem, [])
        return self.index.get(stem, [])
''', '''        index = self.lowercase_index if ignorecase else self.index
        return index.get(stem) or []
'''), file=DD)
t('word-lt', ('''        if self.stem != other.stem:
            return self.stem < other.stem
        return self.flags < other.flags
''', '''        if self.stem == other.stem:
            return self.flags < other.flags
        return self.stem < other.stem
'''), file=DD)

# form

t('form-flags', ('''        flags = self.in_dictionary.flags if self.in_dictionary else set()
        if self.prefix:
            flags = flags.union(self.prefix.flags)
        if self.suffix:
            flags = flags.union(self.suffix.flags)
        return flags
''', '''        flags = set()
        for part in (self.in_dictionary, self.prefix, self.suffix):
            if part:
                flags |= part.flags
        return flags
'''), file=L)
t('form-affixes', ('''        return [*filter(None, [self.prefix2, self.prefix, self.suffix, self.suffix2])]
''', '''        candidates = (self.prefix2, self.prefix, self.suffix, self.suffix2)
        return [affix for affix in candidates if affix is not None]
'''), file=L)
t('circumfix', ('''            suffix_has = form.suffix and aff.CIRCUMFIX in form.suffix.flags
            prefix_has = form.prefix and aff.CIRCUMFIX in form.prefix.flags
            if bool(prefix_has) != bool(suffix_has):
                return False
''', '''            def is_circumfix(affix):
                return affix is not None and aff.CIRCUMFIX in affix.flags

            if is_circumfix(form.prefix) != is_circumfix(form.suffix):
                return False
'''), file=L)
t('good-form-split', ('''        if not compoundpos:
            return aff.ONLYINCOMPOUND not in all_flags
        if aff.COMPOUNDFLAG in all_flags:
            return True
        if compoundpos == CompoundPos.BEGIN:
            return aff.COMPOUNDBEGIN in all_flags
        if compoundpos == CompoundPos.END:
            return aff.COMPOUNDEND in all_flags
        if compoundpos == CompoundPos.MIDDLE:
            return aff.COMPOUNDMIDDLE in all_flags
        return False
''', '''        return self.is_good_place(all_flags, compoundpos)

    def is_good_place(self, flags, compoundpos):
        aff = self.aff
        if not compoundpos:
            return aff.ONLYINCOMPOUND not in flags
        if aff.COMPOUNDFLAG in flags:
            return True
        if compoundpos == CompoundPos.BEGIN:
            wanted = aff.COMPOUNDBEGIN
        elif compoundpos == CompoundPos.END:
            wanted = aff.COMPOUNDEND
        else:
            wanted = aff.COMPOUNDMIDDLE
        return wanted in flags
'''), file=L)
t('veto-methods', ('''            if aff.CHECKCOMPOUNDTRIPLE:
                if len(set(left[-2:] + right[:1])) == 1 or len(set(left[-1:] + right[:2])) == 1:
                    return True
            if aff.CHECKCOMPOUNDCASE:
                right_c = right[0]
                left_c = left[-1]
                if (right_c == right_c.upper() or left_c == left_c.upper()) and right_c != '-' and left_c != '-':
                    return True
''', '''            if aff.CHECKCOMPOUNDTRIPLE and self.is_triple(left, right):
                return True
            if aff.CHECKCOMPOUNDCASE and self.is_upper_border(left[-1], right[0]):
                return True
'''), ('''    def is_bad_compound(self''', '''    @staticmethod
    def is_triple(left, right):
        return len(set(left[-2:] + right[:1])) == 1 or len(set(left[-1:] + right[:2])) == 1

    @staticmethod
    def is_upper_border(before, after):
        if '-' in (before, after):
            return False
        return before == before.upper() or after == after.upper()

    def is_bad_compound(self'''), file=L)
t('rep-veto-any', ('''                for candidate in pmt.replchars(left + right, aff.REP):
                    if isinstance(candidate, str) and any(self.affix_forms(candidate, captype=captype)):
                        return True
''', '''                candidates = (text for text in pmt.replchars(left + right, aff.REP) if isinstance(text, str))
                if any(any(self.affix_forms(text, captype=captype)) for text in candidates):
                    return True
'''), file=L)
t('compound-parts', ('''            for form in self.affix_forms(beg, captype=captype, compoundpos=compoundpos,
                                         prefix_flags=prefix_flags,
                                         suffix_flags=permitflags,
                                         forbidden_flags=forbidden_flags,
                                         allow_nosuggest=allow_nosuggest):
                for partial in self.compounds_by_flags(rest, captype=captype, depth=depth+1,
                                                       allow_nosuggest=allow_nosuggest):
                    yield CompoundForm([form, *partial.parts])
            if aff.SIMPLIFIEDTRIPLE and beg[-1] == rest[0]:
                for form in self.affix_forms(beg + beg[-1], captype=captype, compoundpos=compoundpos,
                                             prefix_flags=prefix_flags,
                                             suffix_flags=permitflags,
                                             forbidden_flags=forbidden_flags,
                                             allow_nosuggest=allow_nosuggest):
                    for partial in self.compounds_by_flags(rest, captype=captype, depth=depth+1,
                                                           allow_nosuggest=allow_nosuggest):
                        yield CompoundForm([form.replace(text=beg), *partial.parts])
''', '''            options = dict(captype=captype, compoundpos=compoundpos, prefix_flags=prefix_flags,
                           suffix_flags=permitflags, forbidden_flags=forbidden_flags,
                           allow_nosuggest=allow_nosuggest)
            for form in self.affix_forms(beg, **options):
                for partial in self.compounds_by_flags(rest, captype=captype, depth=depth+1,
                                                       allow_nosuggest=allow_nosuggest):
                    yield CompoundForm([form] + partial.parts)
            if aff.SIMPLIFIEDTRIPLE and beg[-1] == rest[0]:
                for form in self.affix_forms(beg + beg[-1], **options):
                    for partial in self.compounds_by_flags(rest, captype=captype, depth=depth+1,
                                                           allow_nosuggest=allow_nosuggest):
                        yield CompoundForm([form.replace(text=beg)] + partial.parts)
'''), file=L)
t('compound-allowed', ('''        if len(word_rest) < aff.COMPOUNDMIN * 2 or (aff.COMPOUNDWORDMAX and depth + 1 >= aff.COMPOUNDWORDMAX):
            return
        compoundpos''', '''        too_short = len(word_rest) < 2 * aff.COMPOUNDMIN
        too_many = bool(aff.COMPOUNDWORDMAX) and depth >= aff.COMPOUNDWORDMAX - 1
        if too_short or too_many:
            return
        compoundpos'''), file=L)
t('desuffix-generator', ('''        possible_suffixes = (
            suffix
            for suffix in self.aff.suffixes_index.lookup(word[::-1])
            if good_suffix(suffix)
        )
        for suffix in possible_suffixes:
            stem = suffix.replace_regexp.sub(lambda _: suffix.strip, word)
            if not suffix.cond_regexp.search(stem):
                continue
            yield AffixForm(word, stem, suffix=suffix)
''', '''        for suffix in self.aff.suffixes_index.lookup(word[::-1]):
            if not good_suffix(suffix):
                continue
            stem = suffix.replace_regexp.sub(lambda _: suffix.strip, word)
            if suffix.cond_regexp.search(stem) is None:
                continue
            yield AffixForm(text=word, stem=stem, suffix=suffix)
'''), file=L)
t('produce-cross', ('''                yield form
                if suffix_allowed and form.prefix and form.prefix.crossproduct:
                    yield from (
                        form2.replace(text=form.text, prefix=form.prefix)
                        for form2 in self.desuffix(form.stem,
                                                   required_flags=suffix_flags,
                                                   forbidden_flags=forbidden_flags,
                                                   crossproduct=True)
                    )
''', '''                yield form
                if not suffix_allowed or not form.prefix or not form.prefix.crossproduct:
                    continue
                for inner in self.desuffix(form.stem, suffix_flags, forbidden_flags, crossproduct=True):
                    yield inner.replace(text=form.text, prefix=form.prefix)
'''), file=L)
t('keepcase-flat', ('''        if captype != form.in_dictionary.captype and aff.KEEPCASE in root_flags:
            if not (aff.CHECKSHARPS and 'ß' in form.in_dictionary.stem):
                return False
''', '''        kept = aff.KEEPCASE in root_flags and captype != form.in_dictionary.captype
        sharp = aff.CHECKSHARPS and 'ß' in form.in_dictionary.stem
        if kept and not sharp:
            return False
'''), file=L)

# suggestions

t('edits-table', ('''        for suggestion in pmt.extrachar(word):
            yield Suggestion(suggestion, 'extrachar')
        for suggestion in pmt.forgotchar(word, self.aff.TRY):
            yield Suggestion(suggestion, 'forgotchar')
        for suggestion in pmt.movechar(word):
            yield Suggestion(suggestion, 'movechar')
''', '''        yield from (Suggestion(text, 'extrachar') for text in pmt.extrachar(word))
        yield from (Suggestion(text, 'forgotchar') for text in pmt.forgotchar(word, self.aff.TRY))
        yield from (Suggestion(text, 'movechar') for text in pmt.movechar(word))
'''))
t('edits-named', ('''        for suggestion in pmt.swapchar(word):
            yield Suggestion(suggestion, 'swapchar')
''', '''        def named(texts, kind):
            for text in texts:
                yield Suggestion(text, kind)

        yield from named(pmt.swapchar(word), 'swapchar')
'''), ('''        for suggestion in pmt.longswapchar(word):
            yield Suggestion(suggestion, 'longswapchar')
''', '''        yield from named(pmt.longswapchar(word), 'longswapchar')
'''), ('''        for suggestion in pmt.badchar(word, self.aff.TRY):
            yield Suggestion(suggestion, 'badchar')
''', '''        yield from named(pmt.badchar(word, self.aff.TRY), 'badchar')
'''))
t('filter-multi', ('''                if isinstance(suggestion, MultiWordSuggestion):
                    if all(is_good_suggestion(word) for word in suggestion.words):
                        yield suggestion.stringify()
                        if suggestion.allow_dash:
                            yield suggestion.stringify('-')
                else:
                    if is_good_suggestion(suggestion.text):
                        yield suggestion
''', '''                if not isinstance(suggestion, MultiWordSuggestion):
                    if is_good_suggestion(suggestion.text):
                        yield suggestion
                    continue
                if not all(map(is_good_suggestion, suggestion.words)):
                    continue
                separators = [' ', '-'] if suggestion.allow_dash else [' ']
                for separator in separators:
                    yield suggestion.stringify(separator)
'''))
t('forceucase-next', ('''            for capitalized in self.aff.casing.capitalize(word):
                if is_good_suggestion(capitalized):
                    yield from handle_found(Suggestion(capitalized.capitalize(), 'forceucase'))
                    return  # No more need to check anything
''', '''            good = [text for text in self.aff.casing.capitalize(word) if is_good_suggestion(text)]
            if good:
                yield from handle_found(Suggestion(good[0].capitalize(), 'forceucase'))
                return
'''))
t('spaceword-flag', ('''                if suggestion.kind in ['uppercase', 'replchars', 'mapchars']:
                    nocompound = True
                if suggestion.kind == 'spaceword':
                    return
''', '''                nocompound = nocompound or suggestion.kind in ('uppercase', 'replchars', 'mapchars')
                if suggestion.kind == 'spaceword':
                    return
'''))
t('bad-flags-loop', ('''        bad_flags = {*filter(None, [self.aff.FORBIDDENWORD, self.aff.NOSUGGEST, self.aff.ONLYINCOMPOUND])}
        self.words_for_ngram = [word for word in self.dic.words if not bad_flags.intersection(word.flags)]
''', '''        flags = (aff.FORBIDDENWORD, aff.NOSUGGEST, aff.ONLYINCOMPOUND)
        bad_flags = {flag for flag in flags if flag}
        self.words_for_ngram = [word for word in dic.words if bad_flags.isdisjoint(word.flags)]
'''))
t('space-case', ('''                    pos = text.find(' ')
                    if (pos + 1 < len(text) and pos < len(word) and
                            text[pos + 1] != word[pos] and text[pos + 1].upper() == word[pos]):
                        text = text[:pos+1] + word[pos] + text[pos+2:]
''', '''                    pos = text.index(' ')
                    after = text[pos + 1:pos + 2]
                    if after and pos < len(word) and after != word[pos] and after.upper() == word[pos]:
                        text = text[:pos+1] + word[pos] + text[pos+2:]
'''))
t('ngram-scores', ('''    for (_, root) in roots:
        if root.alt_spellings:
            for variant in root.alt_spellings:
                score = rough_affix_score(misspelling, variant)
                if score > threshold:
                    heapq.heappush(guess_scores, (score, variant, root.stem))
        for form in forms_for(root, prefixes, suffixes, similar_to=misspelling):
            score = rough_affix_score(misspelling, form.lower())
            if score > threshold:
                heapq.heappush(guess_scores, (score, form, form))
''', '''    def consider(compared, shown, real):
        score = rough_affix_score(misspelling, compared)
        if score > threshold:
            heapq.heappush(guess_scores, (score, shown, real))

    for (_, root) in roots:
        for variant in root.alt_spellings:
            consider(variant, variant, root.stem)
        for form in forms_for(root, prefixes, suffixes, similar_to=misspelling):
            consider(form.lower(), form, form)
'''), file=NG)
t('bigram-penalty', ('''    if has_phonetic:
        questionable_limit = len(word2) * diff_factor
    else:
        questionable_limit = (len(word1) + len(word2)) * diff_factor
    if bigrams < questionable_limit:
        result -= 1000
    return result
''', '''    size = len(word2)
    if not has_phonetic:
        size += len(word1)
    penalty = 1000 if bigrams < size * diff_factor else 0
    return result - penalty
'''), file=NG)
t('ngram-length', ('''    return nscore - penalty if penalty > 0 else nscore
''', '''    return nscore - max(penalty, 0)
'''), file=SM)
t('mapchars-closure', ('''                    for other in options:
                        if other == option:
                            continue
                        replaced = word[:pos] + other + word[pos+len(option):]
                        yield replaced
                        for variant in mapchars_internal(replaced, pos + len(other)):
                            yield variant
''', '''                    head, tail = word[:pos], word[pos+len(option):]
                    for other in (o for o in options if o != option):
                        replaced = head + other + tail
                        yield replaced
                        yield from mapchars_internal(replaced, pos + len(other))
'''), file=P)
t('swap-list', ('''    for i in range(len(word) - 1):
        yield word[:i] + word[i+1] + word[i] + word[i+2:]
''', '''    for i, (one, two) in enumerate(zip(word, word[1:])):
        yield word[:i] + two + one + word[i+2:]
'''), file=P)
t('forgot-order', ('''    for c in trystring:
        for i in range(len(word) + 1):
            yield word[:i] + c + word[i:]
''', '''    size = len(word)
    for c in trystring:
        i = 0
        while i <= size:
            yield word[:i] + c + word[i:]
            i += 1
'''), file=P)
t('german-variants', ('''            return [variant for lowered in result for variant in [*sharp_s_variants(lowered), lowered]]
        return result
''', '''            variants = []
            for lowered in result:
                variants.extend(sharp_s_variants(lowered))
                variants.append(lowered)
            return variants
        return result
'''), file=CAP)
t('german-guess', ('''        result = super().guess(word)
        if 'ß' in word and super().guess(word.replace('ß', '')) == Type.ALL:
            return Type.ALL
        return result
''', '''        if 'ß' in word:
            without = word.replace('ß', '')
            if super().guess(without) == Type.ALL:
                return Type.ALL
        return super().guess(word)
'''), file=CAP)

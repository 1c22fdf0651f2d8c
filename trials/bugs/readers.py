"""Wrong edits of the reading side the check of the named property must object to"""
F = 'readers/aff.py'
D = 'readers/dic.py'
FR = 'readers/file_reader.py'
AFF = 'data/aff.py'
DIC = 'data/dic.py'
DICT = 'dictionary.py'
BUGS = []


def b(prop, name, *pairs, file=F):
    BUGS.append((prop, name, file, pairs))


b('C22', 'synonym', ("'PSEUDOROOT': 'NEEDAFFIX'", "'PSEUDOROOT': 'ONLYINCOMPOUND'"))
b('C22', 'synonym-arg', ('''    name = SYNONYMS.get(name, name)
    value = read_value(source, name, *arguments, context=context)
''', '''    value = read_value(source, name, *arguments, context=context)
    name = SYNONYMS.get(name, name)
'''))
b('C22', 'compoundmin', ('return max(int(value), 1)', 'return max(int(value), 3)'))
b('C22', 'compoundmin-zero', ('return max(int(value), 1)', 'return int(value)'))
b('C22', 'maxdiff-abs', ("if directive in ['MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDWORDMAX']:\n        return int(value)", "if directive in ['MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDWORDMAX']:\n        return min(int(value), 10)"))
b('C22', 'onlymaxdiff-missing', ("'SIMPLIFIEDTRIPLE', 'ONLYMAXDIFF',", "'SIMPLIFIEDTRIPLE',"))
b('C22', 'name-regex', ("r'^[A-Z]+$'", "r'^[A-Z]{4,}$'"))
b('C22', 'value-falsy', ('''    if value is None:
        return None
    return (name, value)''', '''    if not value:
        return None
    return (name, value)'''))
b('C22', 'dirvalue-array', ('''            for num, ln in itertools.islice(source, count)''', '''            for num, ln in itertools.islice(source, count - 1)'''))
b('C22', 'array-split', ('re.split(r\'\\s+\', ln)[1:]', "re.split(r' ', ln)[1:]"))
b('C22', 'map-regex', ("r'(\\([^()]+?\\)|[^()])'", "r'(\\([^()]+?\\)|[a-z])'"))
b('C22', 'map-parens', ("re.sub(r'[()]', '', s)", 's'))
b('C22', 'phone-under', ("(search, '' if replacement == '_' else replacement)", '(search, replacement)'))
b('C22', 'phone-strip', ("(search, '' if replacement == '_' else replacement)", "(search, replacement.strip('_').lower())"))
b('C22', 'affix-class', ("kind_class = aff.Suffix if kind == 'SFX' else aff.Prefix", "kind_class = aff.Suffix if kind != 'SFX' else aff.Prefix"))
b('C22', 'affix-cross', ("crossproduct=(crossproduct == 'Y')", "crossproduct=(crossproduct != 'Y')"))
b('C22', 'affix-strip', ("strip=('' if strip == '0' else strip),", 'strip=strip,'))
b('C22', 'affix-add-zero', ("add=('' if add == '0' else add),", "add=('' if add.startswith('0') else add),"))
b('C22', 'affix-overwrite', ('data[directive][value[0].flag] = value', 'data[directive].setdefault(value[0].flag, value)'))
b('C22', 'pattern-rest', ('aff.CompoundPattern(left, right, rest[0] if rest else None)', 'aff.CompoundPattern(left, right, None)'))
b('C22', 'syllable', ('return (int(values[0]), values[1])', 'return (int(values[0]), values[-1].lower())'))
b('C22', 'default-break', ("[BreakPattern('-'), BreakPattern('^-'), BreakPattern('-$')]", "[BreakPattern('-'), BreakPattern('^-')]"), file=AFF)
b('C22', 'default-min', ('COMPOUNDMIN: int = 3', 'COMPOUNDMIN: int = 2'), file=AFF)
b('C22', 'default-cpd', ('MAXCPDSUGS: int = 3', 'MAXCPDSUGS: int = 5'), file=AFF)
b('C22', 'default-ngram', ('MAXNGRAMSUGS: int = 4', 'MAXNGRAMSUGS: int = 5'), file=AFF)
b('C22', 'default-diff', ('MAXDIFF: int = -1', 'MAXDIFF: int = 0'), file=AFF)
b('C22', 'default-key', ("'qwertyuiop|asdfghjkl|zxcvbnm'", "'qwertyuiop|asdfghjkl|zxcvbn'"), file=AFF)
b('C22', 'phone-rule-start', ("start=('^' in m.group('flags')),", "start=m.group('flags').startswith('^^'),"), file=AFF)
b('C22', 'phone-lookahead', ("regex = ''.join(text[:-la]) + '(?=' + ''.join(text[-la:]) + ')'", "regex = ''.join(text[:-1]) + '(?=' + ''.join(text[-1:]) + ')'"), file=AFF)
b('C22', 'break-rest', ("return [aff.BreakPattern(first) for first, *_ in _read_array()]", "return [aff.BreakPattern(first) for first, *_ in _read_array() if first[0] not in '^']"))
b('C23', 'flag-num', ("r'\\d+(?=,|$)'", "r'\\d(?=,|$)'"))
b('C23', 'flag-long', ("re.compile(r'..')", "re.compile(r'.{1,2}')"))
b('C23', 'flag-utf', ('''        if self.flag_format == 'UTF-8':
            return string
''', '''        if self.flag_format == 'UTF-8':
            return string.split(',')
'''))
b('C23', 'alias-format', ('if self.flag_synonyms and string.isdigit():', "if self.flag_synonyms and string.isdigit() and self.flag_format != 'num':"))
b('C23', 'alias-affix', ('flags={*context.parse_flags(flags)}\n    )', 'flags={*context.split_flags(flags)}\n    )'))
b('C23', 'alias-start', ('str(i + 1): {*context.parse_flags(ln[0])}', 'str(i): {*context.parse_flags(ln[0])}'))
b('C23', 'set-context', ('''            context.encoding = value
            source.reset_encoding(value)
''', '''            source.reset_encoding(value)
'''))
b('C23', 'set-reset', ('''            context.encoding = value
            source.reset_encoding(value)
''', '''            context.encoding = value
'''))
b('C23', 'utf-flag', ('''            context.encoding = 'UTF-8'
            data['SET'] = 'UTF-8'
''', '''            data['SET'] = 'UTF-8'
'''))
b('C23', 'flag-context', ('''        if directive == 'FLAG':
            context.flag_format = value
''', '''        if directive == 'FLAG' and value != 'UTF-8':
            context.flag_format = value
'''))
b('C23', 'ignore-add', ('''    if context.ignore:
        add = add.translate(context.ignore.tr)
''', ''))
b('C23', 'ignore-suffix', ('''    if context.ignore:
        add = add''', '''    if context.ignore and kind == 'SFX':
        add = add'''))
b('C23', 'ignore-word', ('''        if context.ignore:
            word = word.translate(context.ignore.tr)
''', ''), file=D)
b('C23', 'ignore-late', ('''        if context.ignore:
            word = word.translate(context.ignore.tr)
        captype = aff.casing.guess(word)
        lower = aff.casing.lower(word) if captype != CapType.NO else [word]
''', '''        captype = aff.casing.guess(word)
        lower = aff.casing.lower(word) if captype != CapType.NO else [word]
        if context.ignore:
            word = word.translate(context.ignore.tr)
'''), file=D)
b('C23', 'dic-encoding', ("FileReader(path + '.dic', encoding=context.encoding)", "FileReader(path + '.dic')"), file=DICT)
b('C23', 'zip-encoding', ('ZipReader(file.open(dic_path), encoding=context.encoding)', 'ZipReader(file.open(dic_path))'), file=DICT)
b('C23', 'dic-set', ("FileReader(path + '.dic', encoding=context.encoding)", "FileReader(path + '.dic', encoding=aff.SET)"), file=DICT)
b('C24', 'count-any', ('if num == 1 and COUNT_REGEXP.match(line):', 'if COUNT_REGEXP.match(line):'), file=D)
b('C24', 'count-regex', ("r'^\\d+(\\s+|$)'", "r'^\\d+'"), file=D)
b('C24', 'slash-plain', ("r'(?<!\\\\)/'", "r'/'"), file=D)
b('C24', 'slash-unescape', ('''        if r'\\/' in word:
            word = word.replace(r'\\/', '/')
''', ''), file=D)
b('C24', 'slash-all', ('SLASH_REGEXP.split(word, 1)', 'SLASH_REGEXP.split(word)'), file=D)
b('C24', 'tab-later', ('(not tags_start or tags_start > old_tags_start)', '(not tags_start or tags_start < old_tags_start)'), file=D)
b('C24', 'tab-only-without', ('(not tags_start or tags_start > old_tags_start)', 'not tags_start'), file=D)
b('C24', 'tag-regex', ("r'[ \\t]\\w{2}:'", "r'[ \\t]\\w+:'"), file=D)
b('C24', 'lower-stem', ('lower = aff.casing.lower(word) if captype != CapType.NO else [word]', 'lower = aff.casing.lower(word) if captype == CapType.ALL else [word]'), file=D)
b('C24', 'lower-index', ('''        for lword in lower:
            self.lowercase_index[lword].append(word)''', '''        self.lowercase_index[lower[0]].append(word)'''), file=DIC)
b('C24', 'lower-index-set', ('''            self.lowercase_index[lword].append(word)''', '''            self.lowercase_index[lword] = [word]'''), file=DIC)
b('C24', 'words-once', ('''        self.words.append(word)
''', '''        if word.stem not in self.index:
            self.words.append(word)
'''), file=DIC)
b('C24', 'homonyms-lower', ('return self.lowercase_index.get(stem, [])', 'return self.lowercase_index.get(stem.lower(), [])'), file=DIC)
b('C24', 'homonyms-one', ('return self.index.get(stem, [])', 'return self.index.get(stem, [])[:1]'), file=DIC)
b('C24', 'ph-star', ('aff.REP.append(RepPattern(pattern[:-2], word[:-1]))', 'aff.REP.append(RepPattern(pattern[:-1], word[:-1]))'), file=D)
b('C24', 'ph-alt', ('''                    aff.REP.append(RepPattern(pattern, word))
                    alt_spellings.append(pattern)''', '''                    aff.REP.append(RepPattern(pattern, word))'''), file=D)
b('C24', 'ph-arrow', ('aff.REP.append(RepPattern(fro, to))', 'aff.REP.append(RepPattern(to, fro))'), file=D)
b('C24', 'ph-first', ("for pattern in data['ph']:", "for pattern in data['ph'][:1]:"), file=D)
b('C24', 'data-last', ('data[tag].append(content)', 'data[tag] = [content]'), file=D)
b('C24', 'data-tag', ("tag, _, content = tag_str.partition(':')", "tag, _, content = tag_str.rpartition(':')"), file=D)
b('C24', 'alias-digit', ('elif tag_str.isdigit() and aliases:', 'elif len(tag_str) == 1 and tag_str.isdigit() and aliases:'), file=D)
b('C24', 'flag-strip', ('flags={*context.parse_flags(flags)},', 'flags={*context.split_flags(flags)},'), file=D)
b('C24', 'slash-start', ("if word.startswith('/'):", "if word.startswith('//'):"), file=D)
b('C28', 'skip-one', ('for _ in range(self.line_no):', 'for _ in range(self.line_no - 1):'), file=FR)
b('C28', 'skip-none', ('''        for _ in range(self.line_no):
            self.io.readline()
''', ''), file=FR)
b('C28', 'line-reset', ('''    def reset_io(self, obj):
        self.io = obj
''', '''    def reset_io(self, obj):
        self.io = obj
        self.line_no = 0
'''), file=FR)
b('C28', 'skip-filtered', ('''        for _ in range(self.line_no):
            self.io.readline()
''', '''        for _ in range(self.line_no):
            next(self.iter)
'''), file=FR)
b('C28', 'count-nonempty', ('''            self.line_no += 1
            if self.line_no == 1 and ln.startswith("\\xef''', '''            if ln.strip():
                self.line_no += 1
            if self.line_no == 1 and ln.startswith("\\xef'''), file=FR)
b('C28', 'stop-blank', ("while ln != '':", 'while ln.strip():'), file=FR)
b('C28', 'count-after', ('''            yield (self.line_no, ln.strip())
            ln = self.io.readline()''', '''            yield (self.line_no, ln.strip())
            self.line_no += 1
            ln = self.io.readline()'''), ('''            self.line_no += 1
            if self.line_no == 1 and ln.startswith("\\xef''', '''            if self.line_no == 1 and ln.startswith("\\xef'''), file=FR)
b('C28', 'bom-any', ('if self.line_no == 1 and ln.startswith("\\ufeff"):', 'if ln.startswith("\\ufeff"):'), file=FR)
b('C28', 'rstrip', ('yield (self.line_no, ln.strip())', 'yield (self.line_no, ln.rstrip())'), file=FR)
b('C28', 'errors', ("open(path, 'r', encoding=encoding, errors='surrogateescape')", "open(path, 'r', encoding=encoding, errors='ignore')"), file=FR)
b('C28', 'zip-errors', ("io.TextIOWrapper(zip_obj, encoding=encoding, errors='surrogateescape')", "io.TextIOWrapper(zip_obj, encoding=encoding, errors='replace')"), file=FR)
b('C28', 'zip-path', ('zipfile.ZipFile(zipname).open(path)', 'zipfile.ZipFile(zipname).open(zipfile.ZipFile(zipname).namelist()[0])'), file=FR)

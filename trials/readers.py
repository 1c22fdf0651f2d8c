"""Behaviour-preserving edits of readers/*.py and dictionary.py"""
TRIALS = []


def t(name, *pairs, file='readers/aff.py'):
    TRIALS.append((name, file, pairs))


t('flag-next', ('''        return list(self.split_flags(string))[0]
''', '''        return next(iter(self.split_flags(string)))
'''))
t('flag-first', ('''        return list(self.split_flags(string))[0]
''', '''        flags = self.split_flags(string)
        return flags[0]
'''))
t('flags-dispatch', ('''        if self.flag_format == 'short':
            return string
        if self.flag_format == 'long':
            return FLAG_LONG_REGEXP.findall(string)
        if self.flag_format == 'num':
            return FLAG_NUM_REGEXP.findall(string)
        if self.flag_format == 'UTF-8':
            return string
        raise ValueError(f"Unknown flag format {self.flag_format}")
''', '''        if self.flag_format in ('short', 'UTF-8'):
            return string
        if self.flag_format == 'long':
            return FLAG_LONG_REGEXP.findall(string)
        if self.flag_format == 'num':
            return FLAG_NUM_REGEXP.findall(string)
        raise ValueError(f"Unknown flag format {self.flag_format}")
'''))
t('flags-elif', ('''        if string is None:
            return []
        if self.flag_synonyms and string.isdigit():
            return self.flag_synonyms[string]
        return self.split_flags(string)
''', '''        if string is None:
            result = []
        elif string.isdigit() and self.flag_synonyms:
            result = self.flag_synonyms[string]
        else:
            result = self.split_flags(string)
        return result
'''))
t('aff-store-helper', ('''        if directive in ['SFX', 'PFX']:
            if value:
                data[directive][value[0].flag] = value
        else:
            data[directive] = value
''', '''        store_value(data, directive, value)
'''), ('''def read_directive(''', '''def store_value(data, directive, value):
    if directive not in ('SFX', 'PFX'):
        data[directive] = value
    elif value:
        data[directive][value[0].flag] = value


def read_directive('''))
t('aff-context-helper', ('''        if directive == 'FLAG':
            context.flag_format = value
        elif directive == 'AF':
            context.flag_synonyms = value
        elif directive == 'SET':
            context.encoding = value
            source.reset_encoding(value)
        elif directive == 'IGNORE':
            context.ignore = value
        if directive == 'FLAG' and value == 'UTF-8':
            context.encoding = 'UTF-8'
            data['SET'] = 'UTF-8'
            source.reset_encoding('UTF-8')
''', '''        update_context(context, directive, value, source, data)
'''), ('''def read_directive(''', '''def update_context(context, directive, value, source, data):
    if directive == 'FLAG':
        context.flag_format = value
        if value == 'UTF-8':
            context.encoding = 'UTF-8'
            data['SET'] = 'UTF-8'
            source.reset_encoding('UTF-8')
    elif directive == 'AF':
        context.flag_synonyms = value
    elif directive == 'SET':
        context.encoding = value
        source.reset_encoding(value)
    elif directive == 'IGNORE':
        context.ignore = value


def read_directive('''))
t('aff-walrus', ('''        dir_value = read_directive(source, line, context=context)
        if not dir_value:
            continue
        directive, value = dir_value
''', '''        if not (dir_value := read_directive(source, line, context=context)):
            continue
        directive, value = dir_value
'''))
t('aff-split', ('''    name, *arguments = re.split(r'\\s+', line)
    if not re.match(r'^[A-Z]+$', name):
        return None
''', '''    parts = re.split(r'\\s+', line)
    name, arguments = parts[0], parts[1:]
    if re.match(r'^[A-Z]+$', name) is None:
        return None
'''))
t('aff-synonym-if', ('''    name = SYNONYMS.get(name, name)
''', '''    if name in SYNONYMS:
        name = SYNONYMS[name]
'''))
t('value-consts', ('''    if directive in ['SET', 'FLAG', 'KEY', 'TRY', 'WORDCHARS', 'LANG']:
        return value
''', '''    if directive in STRING_DIRECTIVES:
        return value
'''), ('''FLAG_LONG_REGEXP =''', '''STRING_DIRECTIVES = frozenset({'SET', 'FLAG', 'KEY', 'TRY', 'WORDCHARS', 'LANG'})
FLAG_LONG_REGEXP ='''))
t('value-array-method', ('''    def _read_array(count=None):
        if count is None:
            count = int(value)
        return [
            re.split(r'\\s+', ln)[1:]
            for num, ln in itertools.islice(source, count)
        ]
''', '''    def _read_array(count=None):
        lines = itertools.islice(source, int(value) if count is None else count)
        return [re.split(r'\\s+', text)[1:] for _, text in lines]
'''))
t('value-array-module', ('''    def _read_array(count=None):
        if count is None:
            count = int(value)
        return [
            re.split(r'\\s+', ln)[1:]
            for num, ln in itertools.islice(source, count)
        ]
''', '''    def _read_array(count=None):
        return read_rows(source, int(value) if count is None else count)
'''), ('''def make_affix(''', '''def read_rows(source, count):
    rows = []
    for _, line in itertools.islice(source, count):
        rows.append(re.split(r'\\s+', line)[1:])
    return rows


def make_affix('''))
t('value-rep-index', ('''        return [aff.RepPattern(pat1, pat2) for pat1, pat2, *_rest in _read_array()]
''', '''        return [aff.RepPattern(*row[:2]) for row in _read_array()]
'''))
t('value-rep-index2', ('''        return [aff.RepPattern(pat1, pat2) for pat1, pat2, *_rest in _read_array()]
''', '''        return [aff.RepPattern(row[0], row[1]) for row in _read_array()]
'''))
t('value-conv-loop', ('''        return aff.ConvTable([
            (pat1, pat2) for pat1, pat2, *_rest in _read_array()    # pylint: disable=unnecessary-comprehension
        ])
''', '''        pairs = []
        for pat1, pat2, *_rest in _read_array():
            pairs.append((pat1, pat2))
        return aff.ConvTable(pairs)
'''))
t('value-map-helper', ('''        return [
            [
                re.sub(r'[()]', '', s)
                for s in re.findall(r'(\\([^()]+?\\)|[^()])', chars)
            ]
            for chars, *_ in _read_array()
        ]
''', '''        return [split_map(row[0]) for row in _read_array()]
'''), ('''def make_affix(''', '''def split_map(chars):
    return [re.sub(r'[()]', '', item) for item in re.findall(r'(\\([^()]+?\\)|[^()])', chars)]


def make_affix('''))
t('value-map-strip', ('''                re.sub(r'[()]', '', s)
                for s in''', '''                s.strip('()')
                for s in'''))
t('value-af-enumerate', ('''        return {
            str(i + 1): {*context.parse_flags(ln[0])}
            for i, ln in enumerate(_read_array())
        }
''', '''        return {
            str(number): set(context.parse_flags(row[0]))
            for number, row in enumerate(_read_array(), start=1)
        }
'''))
t('value-am-loop', ('''        return {
            str(i + 1): ln
            for i, ln in enumerate(_read_array())
        }
''', '''        aliases = {}
        for number, row in enumerate(_read_array(), 1):
            aliases[str(number)] = row
        return aliases
'''))
t('value-phone-or', ('''            (search, '' if replacement == '_' else replacement)
''', '''            (search, replacement if replacement != '_' else '')
'''))
t('value-elif', ('''    if directive == 'IGNORE':
        return aff.Ignore(value)
    if directive in ['MAXDIFF',''', '''    elif directive == 'IGNORE':
        return aff.Ignore(value)
    elif directive in ['MAXDIFF','''))
t('value-min', ('''        return max(int(value), 1)
''', '''        minimum = int(value)
        return minimum if minimum > 1 else 1
'''))
t('affix-kwargs', ('''    kind_class = aff.Suffix if kind == 'SFX' else aff.Prefix
    cond = rest[0] if rest else ''
''', '''    kind_class = {'SFX': aff.Suffix, 'PFX': aff.Prefix}[kind]
    cond = next(iter(rest), '')
'''))
t('affix-zero-helper', ('''        strip=('' if strip == '0' else strip),
        add=('' if add == '0' else add),
''', '''        strip=zero_to_empty(strip),
        add=zero_to_empty(add),
'''), ('''def make_affix(''', '''def zero_to_empty(text):
    return '' if text == '0' else text


def make_affix('''))
t('affix-reassign', ('''    return kind_class(
        flag=flag,
        crossproduct=(crossproduct == 'Y'),
        strip=('' if strip == '0' else strip),
        add=('' if add == '0' else add),
''', '''    if strip == '0':
        strip = ''
    if add == '0':
        add = ''
    return kind_class(
        flag=flag,
        crossproduct=(crossproduct == 'Y'),
        strip=strip,
        add=add,
'''))
t('affix-flags-set', ('''        flags={*context.parse_flags(flags)}
''', '''        flags=set(context.parse_flags(flags))
'''))
D = 'readers/dic.py'
t('dic-split-helper', ('''        if word.startswith('/'):
            flags = ''
        else:
            word_with_flags = SLASH_REGEXP.split(word, 1)
            if len(word_with_flags) == 2:
                word, flags = word_with_flags
            else:
                flags = ''
''', '''        word, flags = split_flags(word)
'''), ('''def parse_data(''', '''def split_flags(word):
    if word.startswith('/'):
        return word, ''
    parts = SLASH_REGEXP.split(word, 1)
    if len(parts) == 2:
        return parts[0], parts[1]
    return word, ''


def parse_data('''), file=D)
t('dic-flags-default', ('''        if word.startswith('/'):
            flags = ''
        else:
            word_with_flags = SLASH_REGEXP.split(word, 1)
            if len(word_with_flags) == 2:
                word, flags = word_with_flags
            else:
                flags = ''
''', '''        flags = ''
        if not word.startswith('/'):
            word_with_flags = SLASH_REGEXP.split(word, 1)
            if len(word_with_flags) == 2:
                word, flags = word_with_flags
'''), file=D)
t('dic-tags-helper', ('''        tags_match = TAG_REGEXP.search(line)
        tags_start: Optional[int] = None
        if tags_match:
            tags_start = tags_match.start()
        old_tags_start = line.find("\\t")
        if old_tags_start != -1 and (not tags_start or tags_start > old_tags_start):
            tags_start = old_tags_start
        if tags_start:
''', '''        tags_start = find_tags(line)
        if tags_start:
'''), ('''def parse_data(''', '''def find_tags(line):
    match = TAG_REGEXP.search(line)
    start = match.start() if match else None
    tab = line.find("\\t")
    if tab != -1 and (not start or start > tab):
        return tab
    return start


def parse_data('''), file=D)
t('dic-unescape', ('''        if r'\\/' in word:
            word = word.replace(r'\\/', '/')
''', '''        word = word.replace('\\\\/', '/')
'''), file=D)
t('dic-lower-if', ('''        lower = aff.casing.lower(word) if captype != CapType.NO else [word]
''', '''        if captype == CapType.NO:
            lower = [word]
        else:
            lower = aff.casing.lower(word)
'''), file=D)
t('dic-ph-helper', ('''        alt_spellings = []
        if 'ph' in data:
            for pattern in data['ph']:
                if pattern.endswith('*'):
                    aff.REP.append(RepPattern(pattern[:-2], word[:-1]))
                elif '->' in pattern:
                    fro, _, to = pattern.partition('->')
                    aff.REP.append(RepPattern(fro, to))
                else:
                    aff.REP.append(RepPattern(pattern, word))
                    alt_spellings.append(pattern)
''', '''        alt_spellings = []
        for pattern in data.get('ph', []):
            alt_spellings.extend(handle_ph(pattern, word, aff))
'''), ('''def parse_data(''', '''def handle_ph(pattern, word, aff):
    if pattern.endswith('*'):
        aff.REP.append(RepPattern(pattern[:-2], word[:-1]))
        return []
    if '->' in pattern:
        fro, _, to = pattern.partition('->')
        aff.REP.append(RepPattern(fro, to))
        return []
    aff.REP.append(RepPattern(pattern, word))
    return [pattern]


def parse_data('''), file=D)
t('dic-ph-single-append', ('''                if pattern.endswith('*'):
                    aff.REP.append(RepPattern(pattern[:-2], word[:-1]))
                elif '->' in pattern:
                    fro, _, to = pattern.partition('->')
                    aff.REP.append(RepPattern(fro, to))
                else:
                    aff.REP.append(RepPattern(pattern, word))
                    alt_spellings.append(pattern)
''', '''                if pattern.endswith('*'):
                    rep = RepPattern(pattern[:-2], word[:-1])
                elif '->' in pattern:
                    fro, _, to = pattern.partition('->')
                    rep = RepPattern(fro, to)
                else:
                    rep = RepPattern(pattern, word)
                    alt_spellings.append(pattern)
                aff.REP.append(rep)
'''), file=D)
t('dic-make-word', ('''        word_obj = dic.Word(
            stem=word,
            flags={*context.parse_flags(flags)},
            data=data,
            captype=captype,
            alt_spellings=alt_spellings
        )
        result.append(word_obj, lower=lower)
''', '''        result.append(
            dic.Word(word, set(context.parse_flags(flags)), data, alt_spellings, captype),
            lower=lower
        )
'''), file=D)
t('dic-tags-branch', ('''        if tags_start:
            word = line[:tags_start]
            data = parse_data(line[tags_start:], aff.AM)
        else:
            word = line
            data = {}
''', '''        word, data = line, {}
        if tags_start:
            word, data = line[:tags_start], parse_data(line[tags_start:], aff.AM)
'''), file=D)
t('dic-parse-continue', ('''        if ':' in tag_str:
            tag, _, content = tag_str.partition(':')
            if content:
                data[tag].append(content)
        elif tag_str.isdigit() and aliases:
            parts.extend([tag for tag in aliases[tag_str] if not (tag.isdigit() and tag in parts)])
        else:
            pass
''', '''        tag, colon, content = tag_str.partition(':')
        if colon:
            if content:
                data[tag].append(content)
        elif aliases and tag_str.isdigit():
            parts.extend([tag for tag in aliases[tag_str] if not (tag.isdigit() and tag in parts)])
'''), file=D)
R = 'readers/file_reader.py'
t('reader-bom', ('''            if self.line_no == 1 and ln.startswith("\\xef\\xbb\\xbf"):
                ln = ln.replace("\\xef\\xbb\\xbf", '')
            if self.line_no == 1 and ln.startswith("\\ufeff"):
                ln = ln.replace("\\ufeff", '')
''', '''            if self.line_no == 1:
                for bom in ("\\xef\\xbb\\xbf", "\\ufeff"):
                    if ln.startswith(bom):
                        ln = ln.replace(bom, '')
'''), file=R)
t('reader-loop', ('''        ln = self.io.readline()
        while ln != '':
            self.line_no += 1''', '''        while True:
            ln = self.io.readline()
            if ln == '':
                break
            self.line_no += 1'''), ('''            yield (self.line_no, ln.strip())
            ln = self.io.readline()
''', '''            yield (self.line_no, ln.strip())
'''), file=R)
t('reader-iter', ('''        ln = self.io.readline()
        while ln != '':
            self.line_no += 1''', '''        for ln in iter(self.io.readline, ''):
            self.line_no += 1'''), ('''            yield (self.line_no, ln.strip())
            ln = self.io.readline()
''', '''            yield (self.line_no, ln.strip())
'''), file=R)
t('reader-skip-empty', ('''            yield (self.line_no, ln.strip())
''', '''            ln = ln.strip()
            if ln:
                yield (self.line_no, ln)
'''), ('''        self.iter = filter(lambda l: l[1] != '', self.readlines())
''', '''        self.iter = self.readlines()
'''), file=R) if False else None
t('reader-genexp', ('''        self.iter = filter(lambda l: l[1] != '', self.readlines())
''', '''        self.iter = ((num, text) for num, text in self.readlines() if text)
'''), file=R)
t('reader-next', ('''        return self.iter.__next__()
''', '''        return next(self.iter)
'''), file=R)
t('reader-skip-while', ('''        for _ in range(self.line_no):
            self.io.readline()
''', '''        skipped = 0
        while skipped < self.line_no:
            obj.readline()
            skipped += 1
'''), file=R)
t('reader-skip-order', ('''        self.io = obj
        self.iter = filter(lambda l: l[1] != '', self.readlines())
        for _ in range(self.line_no):
            self.io.readline()
''', '''        self.io = obj
        for _ in range(self.line_no):
            obj.readline()
        self.iter = filter(lambda pair: pair[1], self.readlines())
'''), file=R)
t('reader-open-const', ('''        return open(path, 'r', encoding=encoding, errors='surrogateescape')
''', '''        return open(path, encoding=encoding, errors='surrogateescape')
'''), file=R)
X = 'dictionary.py'
t('files-helper', ('''        aff, context = readers.read_aff(FileReader(path + '.aff'))
        dic = readers.read_dic(FileReader(path + '.dic', encoding=context.encoding), aff=aff, context=context)
        return cls(aff, dic)
''', '''        aff_reader = FileReader(f'{path}.aff')
        aff, context = readers.read_aff(aff_reader)
        dic_reader = FileReader(f'{path}.dic', context.encoding)
        return cls(aff, readers.read_dic(dic_reader, aff=aff, context=context))
'''), file=X)
t('zip-next', ('''        aff_path = [name for name in file.namelist() if name.endswith('.aff')][0]
        dic_path = [name for name in file.namelist() if name.endswith('.dic')][0]
''', '''        names = file.namelist()
        aff_path = next(name for name in names if name.endswith('.aff'))
        dic_path = next(name for name in names if name.endswith('.dic'))
'''), file=X)
t('zip-helper', ('''        aff_path = [name for name in file.namelist() if name.endswith('.aff')][0]
        dic_path = [name for name in file.namelist() if name.endswith('.dic')][0]
''', '''        def find(extension):
            return [name for name in file.namelist() if name.endswith(extension)][0]

        aff_path = find('.aff')
        dic_path = find('.dic')
'''), file=X)
t('shared-load', ('''        aff, context = readers.read_aff(FileReader(path + '.aff'))
        dic = readers.read_dic(FileReader(path + '.dic', encoding=context.encoding), aff=aff, context=context)
        return cls(aff, dic)
''', '''        return cls._load(
            FileReader(path + '.aff'),
            lambda encoding: FileReader(path + '.dic', encoding=encoding)
        )
'''), ('''        aff, context = readers.read_aff(ZipReader(file.open(aff_path)))
        dic = readers.read_dic(ZipReader(file.open(dic_path), encoding=context.encoding), aff=aff, context=context)
        return cls(aff, dic)
''', '''        return cls._load(
            ZipReader(file.open(aff_path)),
            lambda encoding: ZipReader(file.open(dic_path), encoding=encoding)
        )

    @classmethod
    def _load(cls, aff_reader, open_dic):
        aff, context = readers.read_aff(aff_reader)
        dic = readers.read_dic(open_dic(context.encoding), aff=aff, context=context)
        return cls(aff, dic)
'''), file=X)
t('system-next', ('''            pathes = glob.glob(f'{folder}/{name}.aff')
            if pathes:
                return cls.from_files(pathes[0].replace('.aff', ''))
''', '''            for path in glob.glob(f'{folder}/{name}.aff'):
                return cls.from_files(path.replace('.aff', ''))
'''), file=X)
t('dict-suggest', ('''        yield from self.suggester(word)
''', '''        return self.suggester(word)
'''), file=X)
t('dict-init', ('''        self.lookuper = lookup.Lookup(self.aff, self.dic)
        self.suggester = suggest.Suggest(self.aff, self.dic, self.lookuper)
''', '''        lookuper = lookup.Lookup(aff, dic)
        self.lookuper = lookuper
        self.suggester = suggest.Suggest(aff, dic, lookuper)
'''), file=X)

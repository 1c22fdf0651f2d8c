"""
Reference for the reading of dictionary files (C22, C23, C24, C28).
"""

import glob
import io
import itertools
import os
import re
import zipfile
from collections import defaultdict

from spylls.hunspell.data import aff as data_aff
from spylls.hunspell.data import dic as data_dic
from spylls.hunspell.dictionary import Dictionary
from spylls.hunspell.readers.aff import Context, make_affix, read_directive, read_value
from spylls.hunspell.readers.aff import read_aff as code_read_aff
from spylls.hunspell.readers.dic import parse_data
from spylls.hunspell.readers.dic import read_dic as code_read_dic
from spylls.hunspell.readers.file_reader import FileReader, ZipReader
from spylls.hunspell.algo.capitalization import Type


# ---- word list

def read_dic(source, *, aff, context):
    result = data_dic.Dic(words=[])
    for num, line in source:
        if num == 1 and re.match(r'\d+(\s+|$)', line):
            continue
        start = None
        tag = re.search(r'[ \t]\w{2}:', line)
        if tag:
            start = tag.start()
        tab = line.find('\t')
        if tab >= 0:
            if not start or tab < start:
                start = tab
        if start:
            data = parse_data(line[start:], aff.AM)
            line = line[:start]
        else:
            data = {}
        parts = re.split(r'(?<!\\)/', line, 1)
        if line.startswith('/') or len(parts) != 2:
            stem = line
            flags = ''
        else:
            stem = parts[0]
            flags = parts[1]
        stem = stem.replace('\\/', '/')
        if context.ignore:
            stem = stem.translate(context.ignore.tr)
        captype = aff.casing.guess(stem)
        spellings = []
        if 'ph' in data:
            for pattern in data['ph']:
                if pattern.endswith('*'):
                    aff.REP.append(data_aff.RepPattern(pattern[:-2], stem[:-1]))
                    continue
                before, arrow, after = pattern.partition('->')
                if '->' in pattern:
                    aff.REP.append(data_aff.RepPattern(before, after))
                else:
                    aff.REP.append(data_aff.RepPattern(pattern, stem))
                    spellings.append(pattern)
        result.append(data_dic.Word(stem=stem, flags=set(context.parse_flags(flags)), data=data, captype=captype,
                                    alt_spellings=spellings),
                      lower=[stem] if captype == Type.NO else aff.casing.lower(stem))
    return result


def parse_tags(text, aliases):
    data = defaultdict(list)
    parts = re.split(r'\s+', text)
    for part in parts:
        tag, colon, content = part.partition(':')
        if ':' in part:
            if content:
                data[tag].append(content)
        elif aliases and part.isdigit():
            parts.extend([tag for tag in aliases[part] if not (tag.isdigit() and tag in parts)])
    return data


def dic_post_init(self):
    self.index = defaultdict(list)
    self.lowercase_index = defaultdict(list)


# ---- affix file

TEXT = ['SET', 'FLAG', 'KEY', 'TRY', 'WORDCHARS', 'LANG']
NUMBER = ['MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDWORDMAX']
SINGLE_FLAG = ['NOSUGGEST', 'KEEPCASE', 'CIRCUMFIX', 'NEEDAFFIX', 'FORBIDDENWORD', 'WARN', 'COMPOUNDFLAG',
               'COMPOUNDBEGIN', 'COMPOUNDMIDDLE', 'COMPOUNDEND', 'ONLYINCOMPOUND', 'COMPOUNDPERMITFLAG',
               'COMPOUNDFORBIDFLAG', 'FORCEUCASE', 'SUBSTANDARD', 'SYLLABLENUM', 'COMPOUNDROOT']
SWITCH = ['COMPLEXPREFIXES', 'FULLSTRIP', 'NOSPLITSUGS', 'CHECKSHARPS', 'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDDUP',
          'CHECKCOMPOUNDREP', 'CHECKCOMPOUNDTRIPLE', 'SIMPLIFIEDTRIPLE', 'ONLYMAXDIFF', 'COMPOUNDMORESUFFIXES',
          'FORBIDWARN']


def has_value(values):
    return bool(values)


def table(source, count):
    return [re.split(r'\s+', line)[1:] for _, line in itertools.islice(source, count)]


def value_of(source, directive, *values, context):
    if directive in TEXT:
        return values[0]
    if directive in NUMBER:
        return int(values[0])
    if directive == 'COMPOUNDMIN':
        return max(int(values[0]), 1)
    if directive in SINGLE_FLAG:
        return context.parse_flag(values[0])
    if directive in SWITCH:
        return True
    if directive == 'IGNORE':
        return data_aff.Ignore(values[0])
    if directive == 'COMPOUNDSYLLABLE':
        return (int(values[0]), values[1])
    if directive == 'SFX' or directive == 'PFX':
        return [make_affix(directive, values[0], values[1], *line, context=context)
                for line in table(source, int(values[2]))]
    if directive == 'BREAK':
        return [data_aff.BreakPattern(line[0]) for line in table(source, int(values[0]))]
    if directive == 'COMPOUNDRULE':
        return [data_aff.CompoundRule(line[0]) for line in table(source, int(values[0]))]
    if directive == 'ICONV' or directive == 'OCONV':
        return data_aff.ConvTable([(line[0], line[1]) for line in table(source, int(values[0]))])
    if directive == 'REP':
        return [data_aff.RepPattern(line[0], line[1]) for line in table(source, int(values[0]))]
    if directive == 'MAP':
        return [[re.sub(r'[()]', '', s) for s in re.findall(r'(\([^()]+?\)|[^()])', line[0])]
                for line in table(source, int(values[0]))]
    if directive == 'CHECKCOMPOUNDPATTERN':
        return [data_aff.CompoundPattern(line[0], line[1], line[2:][0] if line[2:] else None)
                for line in table(source, int(values[0]))]
    if directive == 'AF':
        return {str(i + 1): set(context.parse_flags(line[0])) for i, line in enumerate(table(source, int(values[0])))}
    if directive == 'AM':
        return {str(i + 1): line for i, line in enumerate(table(source, int(values[0])))}
    if directive == 'PHONE':
        return data_aff.PhonetTable([(line[0], '' if line[1] == '_' else line[1])
                                     for line in table(source, int(values[0]))])
    return None


def directive(source, line, *, context):
    parts = re.split(r'\s+', line)
    name = parts[0]
    if not re.match(r'[A-Z]+$', name):
        return None
    if name == 'PSEUDOROOT':
        name = 'NEEDAFFIX'
    elif name == 'COMPOUNDLAST':
        name = 'COMPOUNDEND'
    value = read_value(source, name, *parts[1:], context=context)
    return None if value is None else (name, value)


def affix(kind, flag, crossproduct, number, strip, add, *rest, context):
    text, _, flags = add.partition('/')
    if context.ignore:
        text = text.translate(context.ignore.tr)
    if text == '0':
        text = ''
    if strip == '0':
        strip = ''
    condition = rest[0] if rest else ''
    if kind == 'SFX':
        return data_aff.Suffix(flag=flag, crossproduct=crossproduct == 'Y', strip=strip, add=text,
                               condition=condition, flags=set(context.parse_flags(flags)))
    return data_aff.Prefix(flag=flag, crossproduct=crossproduct == 'Y', strip=strip, add=text,
                           condition=condition, flags=set(context.parse_flags(flags)))


def affix_file(source):
    data = {'SFX': {}, 'PFX': {}, 'FLAG': 'short'}
    context = Context()
    for _, line in source:
        read = read_directive(source, line, context=context)
        if read:
            name, value = read
            if name == 'SFX' or name == 'PFX':
                if value:
                    data[name][value[0].flag] = value
            else:
                data[name] = value
            if name == 'AF':
                context.flag_synonyms = value
            if name == 'IGNORE':
                context.ignore = value
            if name == 'SET':
                context.encoding = value
                source.reset_encoding(value)
            if name == 'FLAG':
                context.flag_format = value
                if value == 'UTF-8':
                    data['SET'] = 'UTF-8'
                    context.encoding = 'UTF-8'
                    source.reset_encoding('UTF-8')
    return data_aff.Aff(**data), context


# ---- flags

def split_flags(self, string):
    if self.flag_format == 'long':
        return re.findall('..', string)
    if self.flag_format == 'num':
        return re.findall(r'\d+(?=,|$)', string)
    if self.flag_format == 'short' or self.flag_format == 'UTF-8':
        return string
    raise ValueError('unknown format')


def parse_flag(self, string):
    return list(self.split_flags(string))[0]


def parse_flags(self, string):
    if string is None:
        return []
    if string.isdigit() and self.flag_synonyms:
        return self.flag_synonyms[string]
    return self.split_flags(string)


# ---- files

def reader_init(self, obj):
    self.line_no = 0
    self.reset_io(obj)


def reset_io(self, obj):
    self.io = obj
    self.iter = filter(lambda line: line[1], self.readlines())
    for _ in range(self.line_no):
        self.io.readline()


def reader_next(self):
    return self.iter.__next__()


def readlines(self):
    text = self.io.readline()
    while text:
        self.line_no += 1
        if self.line_no == 1:
            if text.startswith('\u00ef\u00bb\u00bf'):
                text = text.replace('\u00ef\u00bb\u00bf', '')
            if text.startswith('\ufeff'):
                text = text.replace('\ufeff', '')
        yield self.line_no, text.strip()
        text = self.io.readline()


def file_open(self, path, encoding):
    return open(path, 'r', encoding=encoding, errors='surrogateescape')


def file_init(self, path, encoding):
    self.path = path
    self.line_no = 0
    self.reset_io(self._open(path, encoding))


def file_reset(self, encoding):
    self.reset_io(self._open(self.path, encoding))


def zip_open(self, zip_obj, encoding):
    return io.TextIOWrapper(zip_obj, encoding=encoding, errors='surrogateescape')


def zip_init(self, zip_obj, encoding):
    self.zipfile = (zip_obj._fileobj._file.name, zip_obj.name)
    self.line_no = 0
    self.reset_io(self._open(zip_obj, encoding))


def zip_reset(self, encoding):
    self.reset_io(self._open(zipfile.ZipFile(self.zipfile[0]).open(self.zipfile[1]), encoding))


# ---- dictionary

def path_of(path):
    if path in Dictionary.DISTRIBUTED and not os.path.exists(path + '.aff'):
        return os.path.join(os.path.dirname(os.path.realpath(__file__)), 'data', Dictionary.DISTRIBUTED[path], path)
    return path


def from_files(cls, path):
    path = path_of(path)
    aff, context = code_read_aff(FileReader(path + '.aff', encoding='Windows-1252'))
    dic = code_read_dic(FileReader(path + '.dic', encoding=context.encoding), aff=aff, context=context)
    return Dictionary(aff, dic)


def from_zip(cls, path):
    file = zipfile.ZipFile(path)
    aff_path = [name for name in file.namelist() if name.endswith('.aff')][0]
    dic_path = [name for name in file.namelist() if name.endswith('.dic')][0]
    aff, context = code_read_aff(ZipReader(file.open(aff_path), encoding='Windows-1252'))
    dic = code_read_dic(ZipReader(file.open(dic_path), encoding=context.encoding), aff=aff, context=context)
    return Dictionary(aff, dic)


def from_system(cls, name):
    for folder in cls.PATHES:
        pathes = glob.glob(f'{folder}/{name}.aff')
        if pathes:
            return cls.from_files(pathes[0].replace('.aff', ''))
    raise LookupError


# ---- table of phonetic rules

def phonet_rule(self, search, replacement):
    m = re.fullmatch(r'(?P<letters>\w+)(\((?P<optional>\w+)\))?(?P<lookahead>[-]+)?(?P<flags>[\^$<]*)(?P<priority>\d)?', search)
    if not m:
        raise ValueError(f'Not a proper rule: {search!r}')
    text = [*m.group('letters')]
    if m.group('optional'):
        text.append('[' + m.group('optional') + ']')
    dashes = m.group('lookahead')
    if dashes:
        regex = ''.join(text[:-len(dashes)]) + '(?=' + ''.join(text[-len(dashes):]) + ')'
    else:
        regex = ''.join(text)
    return data_aff.PhonetTable.Rule(search=re.compile(regex), replacement=replacement, start='^' in m.group('flags'),
                                     end='$' in m.group('flags'), followup=dashes is not None)


def phonet_rules(self):
    self.rules = defaultdict(list)
    for search, replacement in self.table:
        self.rules[search[0]].append(self.parse_rule(search, replacement))


def phonet_match(self, word, pos):
    if self.start and pos > 0:
        return False
    if self.end:
        return self.search.fullmatch(word, pos)
    return self.search.match(word, pos)

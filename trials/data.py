"""Behaviour-preserving edits of data/*.py and algo/trie.py"""
TRIALS = []


def t(name, *pairs, file='data/aff.py'):
    TRIALS.append((name, file, pairs))


t('break-template', ('''        if pattern.startswith('^') or pattern.endswith('$'):
            self.regexp = re.compile(f"({pattern})")
        else:
            self.regexp = re.compile(f".({pattern}).")
''', '''        anchored = pattern.startswith('^') or pattern.endswith('$')
        template = '({})' if anchored else '.({}).'
        self.regexp = re.compile(template.format(pattern))
'''))
t('break-concat', ('''            self.regexp = re.compile(f"({pattern})")
        else:
            self.regexp = re.compile(f".({pattern}).")
''', '''            regexp = '(' + pattern + ')'
        else:
            regexp = '.(' + pattern + ').'
        self.regexp = re.compile(regexp)
'''))
t('escape-helper', ('''        pattern = re.escape(self.pattern).replace('\\\\^', '^').replace('\\\\$', '$')
        if pattern.startswith''', '''        pattern = escape_anchored(self.pattern)
        if pattern.startswith'''), ('''        pattern = re.escape(self.pattern).replace('\\\\^', '^').replace('\\\\$', '$')
        self.regexp = re.compile(pattern)
''', '''        self.regexp = re.compile(escape_anchored(self.pattern))
'''), ('''@dataclass
class BreakPattern:
''', '''def escape_anchored(pattern):
    escaped = re.escape(pattern)
    for anchor in ('^', '$'):
        escaped = escaped.replace('\\\\' + anchor, anchor)
    return escaped


@dataclass
class BreakPattern:
'''))
t('ignore-dict', ('''        self.tr = str.maketrans('', '', self.chars)
''', '''        self.tr = {ord(char): None for char in self.chars}
'''))
t('affix-fstring', ('''        self.cond_regexp = re.compile('^' + self.condition.replace('-', '\\\\-'))
        self.replace_regexp = re.compile('^' + re.escape(self.add))
''', '''        condition = self.condition.replace('-', r'\\-')
        self.cond_regexp = re.compile(f'^{condition}')
        self.replace_regexp = re.compile(f'^{re.escape(self.add)}')
'''))
t('affix-prefix-match', ('''        self.cond_regexp = re.compile(self.condition.replace('-', '\\\\-') + '$')
        self.replace_regexp = re.compile(re.escape(self.add) + '$')
''', '''        condition = self.condition.replace('-', '\\\\-')
        ending = re.escape(self.add)
        self.replace_regexp = re.compile(ending + '$')
        self.cond_regexp = re.compile(condition + '$')
'''))
t('rule-matcher', ('''        relevant_flags = [self.flags.intersection(f) for f in flag_sets]
        return any(
            self.re.fullmatch(''.join(fc))
            for fc in itertools.product(*relevant_flags)
        )
''', '''        return self._matches(self.re, flag_sets)

    def _matches(self, regexp, flag_sets):
        relevant_flags = [self.flags.intersection(f) for f in flag_sets]
        for combination in itertools.product(*relevant_flags):
            if regexp.fullmatch(''.join(combination)):
                return True
        return False
'''), ('''        relevant_flags = [self.flags.intersection(f) for f in flag_sets]
        return any(
            self.partial_re.fullmatch(''.join(fc))
            for fc in itertools.product(*relevant_flags)
        )
''', '''        return self._matches(self.partial_re, flag_sets)
'''))
t('rule-and', ('''    def fullmatch(self, flag_sets):
        relevant_flags = [self.flags.intersection(f) for f in flag_sets]
''', '''    def fullmatch(self, flag_sets):
        relevant_flags = [self.flags & flags for flags in flag_sets]
'''))
t('rule-reduce-loop', ('''        self.partial_re = re.compile(
            functools.reduce(lambda res, part: f"{part}({res})?", parts[::-1])
        )
''', '''        partial = parts[-1]
        for part in reversed(parts[:-1]):
            partial = f"{part}({partial})?"
        self.partial_re = re.compile(partial)
'''))
t('pattern-helper', ('''        self.left_stem, _, self.left_flag = self.left.partition('/')
        self.right_stem, _, self.right_flag = self.right.partition('/')
        if self.left_stem == '0':
            self.left_stem = ''
            self.left_no_affix = True
        else:
            self.left_no_affix = False
        if self.right_stem == '0':
            self.right_stem = ''
            self.right_no_affix = True
        else:
            self.right_no_affix = False
''', '''        self.left_stem, self.left_flag, self.left_no_affix = self._parse(self.left)
        self.right_stem, self.right_flag, self.right_no_affix = self._parse(self.right)

    @staticmethod
    def _parse(text):
        stem, _, flag = text.partition('/')
        if stem == '0':
            return '', flag, True
        return stem, flag, False
'''))
t('pattern-bool', ('''        if self.left_stem == '0':
            self.left_stem = ''
            self.left_no_affix = True
        else:
            self.left_no_affix = False
''', '''        self.left_no_affix = self.left_stem == '0'
        if self.left_no_affix:
            self.left_stem = ''
'''))
t('pattern-match-ifs', ('''        return (left.stem.endswith(self.left_stem)) and (right.stem.startswith(self.right_stem)) and \\
               (not self.left_no_affix or not left.is_base()) and \\
               (not self.right_no_affix or not right.is_base()) and \\
               (not self.left_flag or self.left_flag in left.flags()) and \\
               (not self.right_flag or self.right_flag in right.flags())
''', '''        if not left.stem.endswith(self.left_stem) or not right.stem.startswith(self.right_stem):
            return False
        if self.left_no_affix and left.is_base():
            return False
        if self.right_no_affix and right.is_base():
            return False
        if self.left_flag and self.left_flag not in left.flags():
            return False
        return not self.right_flag or self.right_flag in right.flags()
'''))
t('conv-max', ('''            matches = sorted(
                [(search, pattern, replacement)
                 for search, pattern, replacement in self.table
                 if search and pattern.match(word, pos)],
                key=lambda r: len(r[0]),
                reverse=True
            )
            if matches:
                search, pattern, replacement = matches[0]
                res += replacement
                pos += len(search)
''', '''            matches = [
                (search, replacement)
                for search, pattern, replacement in self.table
                if search and pattern.match(word, pos)
            ]
            if matches:
                search, replacement = max(matches, key=lambda row: len(row[0]))
                res += replacement
                pos += len(search)
'''))
t('conv-helper', ('''            matches = sorted(
                [(search, pattern, replacement)
                 for search, pattern, replacement in self.table
                 if search and pattern.match(word, pos)],
                key=lambda r: len(r[0]),
                reverse=True
            )
            if matches:
''', '''            matches = self._matches(word, pos)
            if matches:
'''), ('''@dataclass
class PhonetTable:
''', '''    def _matches(self, word, pos):
        found = [row for row in self.table if row[0] and row[1].match(word, pos)]
        return sorted(found, key=lambda row: len(row[0]), reverse=True)


@dataclass
class PhonetTable:
'''))
t('conv-list', ('''        res = ''
        while''', '''        res = []
        while'''), ('''                res += replacement
''', '''                res.append(replacement)
'''), ('''                res += word[pos]
                pos += 1
        return res
''', '''                res.append(word[pos])
                pos += 1
        return ''.join(res)
'''))
t('conv-continue', ('''            if matches:
                search, pattern, replacement = matches[0]
                res += replacement
                pos += len(search)
            else:
                res += word[pos]
                pos += 1
''', '''            if not matches:
                res += word[pos]
                pos += 1
                continue
            search, _, replacement = matches[0]
            res += replacement
            pos += len(search)
'''))
t('conv-compile', ('''            pat1re = re.escape(pat1clean)
            if pat1.startswith('_'):
                pat1re = '^' + pat1re
            if pat1.endswith('_'):
                pat1re = pat1re + '$'
            return (pat1clean, re.compile(pat1re), pat2.replace('_', ' '))
''', '''            start = '^' if pat1.startswith('_') else ''
            end = '$' if pat1.endswith('_') else ''
            regexp = re.compile(f'{start}{re.escape(pat1clean)}{end}')
            return pat1clean, regexp, pat2.replace('_', ' ')
'''))
t('conv-sort-inplace', ('''        self.table = sorted([compile_row(*row) for row in self.pairs], key=itemgetter(0))
''', '''        self.table = [compile_row(search, replacement) for search, replacement in self.pairs]
        self.table.sort(key=lambda row: row[0])
'''))
t('conv-method', ('''        def compile_row(pat1, pat2):
            pat1clean = pat1.replace('_', '')
            pat1re = re.escape(pat1clean)
            if pat1.startswith('_'):
                pat1re = '^' + pat1re
            if pat1.endswith('_'):
                pat1re = pat1re + '$'
            return (pat1clean, re.compile(pat1re), pat2.replace('_', ' '))
        self.table = sorted([compile_row(*row) for row in self.pairs], key=itemgetter(0))
''', '''        self.table = sorted((self._compile_row(*row) for row in self.pairs), key=itemgetter(0))

    def _compile_row(self, pat1, pat2):
        pat1clean = pat1.replace('_', '')
        pat1re = re.escape(pat1clean)
        if pat1.startswith('_'):
            pat1re = '^' + pat1re
        if pat1.endswith('_'):
            pat1re += '$'
        return (pat1clean, re.compile(pat1re), pat2.replace('_', ' '))
'''))
t('phone-setdefault', ('''        self.rules = defaultdict(list)
        for search, replacement in self.table:
            self.rules[search[0]].append(self.parse_rule(search, replacement))
''', '''        self.rules = {}
        for search, replacement in self.table:
            rule = self.parse_rule(search, replacement)
            self.rules.setdefault(search[0], []).append(rule)
'''))
t('phone-match', ('''            if self.start and pos > 0:
                return False
            if self.end:
                return self.search.fullmatch(word, pos)
            return self.search.match(word, pos)
''', '''            if self.start and pos != 0:
                return None
            matcher = self.search.fullmatch if self.end else self.search.match
            return matcher(word, pos)
'''))
t('aff-index-helper', ('''        suffixes = defaultdict(list)
        for suf in itertools.chain.from_iterable(self.SFX.values()):
            suffixes[suf.add[::-1]].append(suf)
        self.suffixes_index = Trie(suffixes)
        prefixes = defaultdict(list)
        for pref in itertools.chain.from_iterable(self.PFX.values()):
            prefixes[pref.add].append(pref)
        self.prefixes_index = Trie(prefixes)
''', '''        self.suffixes_index = self._build_index(self.SFX, lambda suffix: suffix.add[::-1])
        self.prefixes_index = self._build_index(self.PFX, lambda prefix: prefix.add)
'''), ('''    SUBSTANDARD: Optional[str] = None
''', '''    SUBSTANDARD: Optional[str] = None

    @staticmethod
    def _build_index(groups, key):
        index = defaultdict(list)
        for affixes in groups.values():
            for affix in affixes:
                index[key(affix)].append(affix)
        return Trie(index)
'''))
t('aff-index-put', ('''        suffixes = defaultdict(list)
        for suf in itertools.chain.from_iterable(self.SFX.values()):
            suffixes[suf.add[::-1]].append(suf)
        self.suffixes_index = Trie(suffixes)
''', '''        self.suffixes_index = Trie()
        for suffixes in self.SFX.values():
            for suffix in suffixes:
                self.suffixes_index.put(suffix.add[::-1], suffix)
'''))
t('aff-index-nested', ('''        for suf in itertools.chain.from_iterable(self.SFX.values()):
            suffixes[suf.add[::-1]].append(suf)
''', '''        for group in self.SFX.values():
            for suf in group:
                suffixes[suf.add[::-1]].append(suf)
'''))
t('aff-index-chain', ('''        for pref in itertools.chain.from_iterable(self.PFX.values()):
            prefixes[pref.add].append(pref)
''', '''        for pref in itertools.chain(*self.PFX.values()):
            prefixes[pref.add].append(pref)
'''))
t('aff-casing-helper', ('''        if self.CHECKSHARPS:
            self.casing = GermanCasing()
        elif self.LANG in ['tr', 'tr_TR', 'az', 'crh']:     # TODO: more robust language code check!
            self.casing = TurkicCasing()
        else:
            self.casing = Casing()
''', '''        self.casing = self._make_casing()

    def _make_casing(self):
        if self.CHECKSHARPS:
            return GermanCasing()
        if self.LANG in {'tr', 'tr_TR', 'az', 'crh'}:
            return TurkicCasing()
        return Casing()
'''))
t('aff-casing-class', ('''        if self.CHECKSHARPS:
            self.casing = GermanCasing()
        elif self.LANG in ['tr', 'tr_TR', 'az', 'crh']:     # TODO: more robust language code check!
            self.casing = TurkicCasing()
        else:
            self.casing = Casing()
''', '''        if self.CHECKSHARPS:
            casing_class = GermanCasing
        elif self.LANG in ('tr', 'tr_TR', 'az', 'crh'):
            casing_class = TurkicCasing
        else:
            casing_class = Casing
        self.casing = casing_class()
'''))
D = 'data/dic.py'
t('dic-append-local', ('''        self.words.append(word)
        self.index[word.stem].append(word)
        for lword in lower:
            self.lowercase_index[lword].append(word)
''', '''        self.index[word.stem].append(word)
        for lowered in lower:
            entries = self.lowercase_index[lowered]
            entries.append(word)
        self.words.append(word)
'''), file=D)
t('dic-plain-dict', ('''        self.index = defaultdict(list)
        self.lowercase_index = defaultdict(list)
''', '''        self.index = {}
        self.lowercase_index = {}
'''), ('''        self.index[word.stem].append(word)
        for lword in lower:
            self.lowercase_index[lword].append(word)
''', '''        self.index.setdefault(word.stem, []).append(word)
        for lword in lower:
            self.lowercase_index.setdefault(lword, []).append(word)
'''), file=D)
t('dic-has-flag', ('''        homonyms = self.homonyms(stem)
        if not homonyms:
            return False
        if for_all:
            return all(flag in homonym.flags for homonym in homonyms)
        return any(flag in homonym.flags for homonym in homonyms)
''', '''        flag_sets = [homonym.flags for homonym in self.homonyms(stem)]
        if for_all:
            return bool(flag_sets) and all(flag in flags for flags in flag_sets)
        return any(flag in flags for flags in flag_sets)
'''), file=D)
t('dic-lt-tuple', ('''        if self.stem != other.stem:
            return self.stem < other.stem
        return self.flags < other.flags
''', '''        if self.stem == other.stem:
            return self.flags < other.flags
        return self.stem < other.stem
'''), file=D)
T = 'algo/trie.py'
t('trie-leaf-helper', ('''        cur = self.root
        for p in path:
            cur = cur.children[p]
        cur.payloads.append(payload)
''', '''        self._leaf(path).payloads.append(payload)

    def _leaf(self, path):
        cur = self.root
        for p in path:
            cur = cur.children[p]
        return cur
'''), ('''        cur = self.root
        for p in path:
            cur = cur.children[p]
        cur.payloads = payloads
''', '''        self._leaf(path).payloads = payloads
'''), file=T)
t('trie-iterative', ('''        for _, leaf in self.traverse(self.root, path):
            yield from leaf.payloads
    def traverse(self, cur, path, traversed=[]):
        yield (traversed, cur)
        if not path or path[0] not in cur.children:
            return
        yield from self.traverse(cur.children[path[0]], path[1:], [*traversed, path[0]])
''', '''        leaf = self.root
        yield from leaf.payloads
        for char in path:
            if char not in leaf.children:
                return
            leaf = leaf.children[char]
            yield from leaf.payloads
'''), file=T)
t('trie-traverse-invert', ('''        if not path or path[0] not in cur.children:
            return
        yield from self.traverse(cur.children[path[0]], path[1:], [*traversed, path[0]])
''', '''        if path and path[0] in cur.children:
            head, tail = path[0], path[1:]
            for item in self.traverse(cur.children[head], tail, traversed + [head]):
                yield item
'''), file=T)
t('trie-traverse-noprefix', ('''        for _, leaf in self.traverse(self.root, path):
            yield from leaf.payloads
    def traverse(self, cur, path, traversed=[]):
        yield (traversed, cur)
        if not path or path[0] not in cur.children:
            return
        yield from self.traverse(cur.children[path[0]], path[1:], [*traversed, path[0]])
''', '''        for leaf in self.traverse(self.root, path):
            for payload in leaf.payloads:
                yield payload

    def traverse(self, cur, path):
        yield cur
        if path and path[0] in cur.children:
            yield from self.traverse(cur.children[path[0]], path[1:])
'''), file=T)
t('trie-pop', ('''        if data:
            for key, val in data.items():
                self.set(key, val)
''', '''        for key, val in (data or {}).items():
            self.set(key, val)
'''), file=T)

"""Behaviour-preserving edits: stages, counters, directives, phonetic rules (the fifth batch)"""
TRIALS = []

L = 'algo/lookup.py'
S = 'algo/suggest.py'
P = 'algo/permutations.py'
CAP = 'algo/capitalization.py'
SM = 'algo/string_metrics.py'
NG = 'algo/ngram_suggest.py'
PH = 'algo/phonet_suggest.py'
DA = 'data/aff.py'
DD = 'data/dic.py'
RA = 'readers/aff.py'
RD = 'readers/dic.py'
RF = 'readers/file_reader.py'


def t(name, *pairs, file=S):
    TRIALS.append((name, file, pairs))


# stages of the search
t('spaceword-flag', ('''            nocompound = False

            # 1.''', '''            nocompound = False
            whole_phrase = False

            # 1.'''), ('''                if suggestion.kind == 'spaceword':
                    return
''', '''                if suggestion.kind == 'spaceword':
                    whole_phrase = True
                    break
            if whole_phrase:
                return
'''))
t('spaceword-first', ('''limit=MAXSUGGESTIONS, compounds=False):
                yield suggestion
''', '''limit=MAXSUGGESTIONS, compounds=False):
                if suggestion.kind == 'spaceword':
                    yield suggestion
                    return
                yield suggestion
'''), ('''                    nocompound = True
                if suggestion.kind == 'spaceword':
                    return
''', '''                    nocompound = True
'''))
t('forceucase-flag', ('''                if is_good_suggestion(capitalized):
                    yield from handle_found(Suggestion(capitalized.capitalize(), 'forceucase'))
                    return  # No more need to check anything
''', '''                good = is_good_suggestion(capitalized)
                if not good:
                    continue
                yield from handle_found(Suggestion(capitalized.capitalize(), 'forceucase'))
                return  # No more need to check anything
'''))
t('forceucase-next', ('''            for capitalized in self.aff.casing.capitalize(word):
                if is_good_suggestion(capitalized):
                    yield from handle_found(Suggestion(capitalized.capitalize(), 'forceucase'))
                    return  # No more need to check anything
''', '''            good = next((c for c in self.aff.casing.capitalize(word) if is_good_suggestion(c)), None)
            if good is not None:
                yield from handle_found(Suggestion(good.capitalize(), 'forceucase'))
                return  # No more need to check anything
'''))
t('good-edits-if', ('''                good_edits_found = good_edits_found or (suggestion.kind in GOOD_EDITS)
                if suggestion.kind in ['uppercase''', '''                if suggestion.kind in GOOD_EDITS:
                    good_edits_found = True
                if suggestion.kind in ['uppercase'''), ('''                    yield suggestion
                    good_edits_found = good_edits_found or (suggestion.kind in GOOD_EDITS)

''', '''                    yield suggestion
                    good = suggestion.kind in GOOD_EDITS
                    good_edits_found = good_edits_found or good

'''))
t('good-edits-or', ('''                good_edits_found = good_edits_found or (suggestion.kind in GOOD_EDITS)
                if suggestion.kind in ['uppercase''', '''                good_edits_found |= suggestion.kind in GOOD_EDITS
                if suggestion.kind in ['uppercase'''))
t('good-edits-early', ('''                good_edits_found = good_edits_found or (suggestion.kind in GOOD_EDITS)
                if suggestion.kind in ['uppercase''', '''                if not good_edits_found:
                    good_edits_found = suggestion.kind in GOOD_EDITS
                if suggestion.kind in ['uppercase'''))
t('nocompound-positive', ('''            nocompound = False

''', '''            try_compounds = True

'''), ('''                if suggestion.kind in ['uppercase', 'replchars', 'mapchars']:
                    nocompound = True
''', '''                if suggestion.kind in ['uppercase', 'replchars', 'mapchars']:
                    try_compounds = False
'''), ('''            if not nocompound:
                for''', '''            if try_compounds:
                for'''))
t('nocompound-continue', ('''            if not nocompound:
                for suggestion in self.edit_suggestions(variant, handle_found,
                                                        limit=self.aff.MAXCPDSUGS, compounds=True):
                    yield suggestion
                    good_edits_found = good_edits_found or (suggestion.kind in GOOD_EDITS)
''', '''            if nocompound:
                continue
            for suggestion in self.edit_suggestions(variant, handle_found,
                                                    limit=self.aff.MAXCPDSUGS, compounds=True):
                yield suggestion
                good_edits_found = good_edits_found or (suggestion.kind in GOOD_EDITS)
'''))
t('handled-list', ('''        handled: Set[str] = set()
''', '''        handled: Set[str] = set([])
'''))
t('handled-order', ('''            handled.add(text)

            # And here we are!
            yield suggestion.replace(text=text)
''', '''            result = suggestion.replace(text=text)
            handled.add(text)
            yield result
'''))
# counters
t('count-before', ('''            for res in handle_found(suggestion):
                yield res
                count += 1

                if count >= limit:
                    return
''', '''            for res in handle_found(suggestion):
                count += 1
                yield res
                if count == limit:
                    return
'''))
t('count-down', ('''        count = 0

        for suggestion in filter''', '''        left = limit

        for suggestion in filter'''), ('''                yield res
                count += 1

                if count >= limit:
                    return
''', '''                yield res
                left -= 1
                if left <= 0:
                    return
'''))
t('count-islice', ('''from typing import''', '''import itertools
from typing import'''), ('''        count = 0

        for suggestion in filter_suggestions(self.edits(word)):
''', '''        def found():
            for suggestion in filter_suggestions(self.edits(word)):
                yield from handle_found(suggestion)

        yield from itertools.islice(found(), limit)
        return
        for suggestion in filter_suggestions(self.edits(word)):
'''), ('''            for res in handle_found(suggestion):
                yield res
                count += 1

                if count >= limit:
                    return
''', '''            pass
'''))
t('count-check-top', ('''            for res in handle_found(suggestion):
                yield res
                count += 1

                if count >= limit:
                    return
''', '''            for res in handle_found(suggestion):
                yield res
                count += 1
            if count >= limit:
                break
'''))
t('ngram-helper', ('''        ngrams_seen = 0
        for sug in self.ngram_suggestions(word, handled=handled):
            for res in handle_found(Suggestion(sug, 'ngram'), check_inclusion=True):
                ngrams_seen += 1
                yield res
            if ngrams_seen >= self.aff.MAXNGRAMSUGS:
                break
''', '''        def limited(found, kind, limit):
            seen = 0
            for text in found:
                for res in handle_found(Suggestion(text, kind), check_inclusion=True):
                    seen += 1
                    yield res
                if seen >= limit:
                    break

        yield from limited(self.ngram_suggestions(word, handled=handled), 'ngram', self.aff.MAXNGRAMSUGS)
'''), ('''        phonet_seen = 0
        for sug in self.phonet_suggestions(word):
            for res in handle_found(Suggestion(sug, 'phonet'), check_inclusion=True):
                phonet_seen += 1
                yield res
            if phonet_seen >= MAXPHONSUGS:
                break
''', '''        yield from limited(self.phonet_suggestions(word), 'phonet', MAXPHONSUGS)
'''))
t('ngram-list', ('''            for res in handle_found(Suggestion(sug, 'ngram'), check_inclusion=True):
                ngrams_seen += 1
                yield res
            if ngrams''', '''            results = list(handle_found(Suggestion(sug, 'ngram'), check_inclusion=True))
            ngrams_seen += len(results)
            yield from results
            if ngrams'''))
t('phonet-not-less', ('''            if phonet_seen >= MAXPHONSUGS:
                break
''', '''            if phonet_seen < MAXPHONSUGS:
                continue
            break
'''))
t('limit-positive', ('''        if limit <= 0:
            return

        count = 0
''', '''        if not limit > 0:
            return

        count = 0
'''))
t('dash-chunk-helper', ('''                        candidate = '-'.join([*chunks[:idx], sug, *chunks[idx+1:]])
''', '''                        before, after = chunks[:idx], chunks[idx+1:]
                        candidate = '-'.join(before + [sug] + after)
'''))
t('dash-first-bad', ('''            for idx, chunk in enumerate(chunks):
                # If this chunk of the word is misspelled...
                if not is_good_suggestion(chunk):
''', '''            for idx in range(len(chunks)):
                chunk = chunks[idx]
                # If this chunk of the word is misspelled...
                if not is_good_suggestion(chunk):
'''))
t('filter-split', ('''                if isinstance(suggestion, MultiWordSuggestion):
                    # ...if all of the words is correct
                    if all(is_good_suggestion(word) for word in suggestion.words):
                        # ...we just convert it to plain text suggestion "word1 word2"
                        yield suggestion.stringify()
                        if suggestion.allow_dash:
                            # ...and "word1-word2" if allowed
                            yield suggestion.stringify('-')
                else:
                    # Singleword suggestion is just yielded if it is good
                    if is_good_suggestion(suggestion.text):
                        yield suggestion
''', '''                if not isinstance(suggestion, MultiWordSuggestion):
                    if is_good_suggestion(suggestion.text):
                        yield suggestion
                    continue
                if not all(map(is_good_suggestion, suggestion.words)):
                    continue
                yield suggestion.stringify()
                if suggestion.allow_dash:
                    yield suggestion.stringify('-')
'''))
t('good-forms-kw', ('''            if compounds:
                return any(self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False, affix_forms=False))
            return any(self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False, compound_forms=False))
''', '''            return any(self.lookup.good_forms(word, capitalization=False, allow_nosuggest=False,
                                              affix_forms=not compounds, compound_forms=compounds))
'''))
# directives
t('aff-elif', ('''    if directive in ['SET', 'FLAG', 'KEY', 'TRY', 'WORDCHARS', 'LANG']:
        return value
    if directive == 'IGNORE':
        return aff.Ignore(value)
''', '''    if directive == 'IGNORE':
        return aff.Ignore(value)
    if directive in ('SET', 'FLAG', 'KEY', 'TRY', 'WORDCHARS', 'LANG'):
        return value
'''), file=RA)
t('aff-constants', ('''    if directive in ['MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDWORDMAX']:
        return int(value)
    if directive == 'COMPOUNDMIN':
        return max(int(value), 1)
''', '''    if directive in NUMBERS:
        number = int(value)
        return max(1, number) if directive == 'COMPOUNDMIN' else number
'''), ('''def read_aff(source''', '''NUMBERS = {'MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDWORDMAX', 'COMPOUNDMIN'}


def read_aff(source'''), file=RA)
t('aff-first-column', ('''        return [aff.BreakPattern(first) for first, *_ in _read_array()]
''', '''        return [aff.BreakPattern(line[0]) for line in _read_array()]
'''), file=RA)
t('aff-conv-list', ('''        return aff.ConvTable([
            (pat1, pat2) for pat1, pat2, *_rest in _read_array()    # pylint: disable=unnecessary-comprehension
        ])
''', '''        pairs = []
        for pat1, pat2, *_rest in _read_array():
            pairs.append((pat1, pat2))
        return aff.ConvTable(pairs)
'''), file=RA)
t('aff-af-loop', ('''        return {
            str(i + 1): {*context.parse_flags(ln[0])}
            for i, ln in enumerate(_read_array())
        }
''', '''        return {
            str(number): set(context.parse_flags(ln[0]))
            for number, ln in enumerate(_read_array(), start=1)
        }
'''), file=RA)
t('aff-am-loop', ('''        return {
            str(i + 1): ln
            for i, ln in enumerate(_read_array())
        }
''', '''        aliases = {}
        for i, ln in enumerate(_read_array()):
            aliases[str(i + 1)] = ln
        return aliases
'''), file=RA)
t('aff-phone-helper', ('''        return aff.PhonetTable([
            (search, '' if replacement == '_' else replacement)
            for search, replacement, *_ in _read_array()
        ])
''', '''        rows = []
        for search, replacement, *_ in _read_array():
            if replacement == '_':
                replacement = ''
            rows.append((search, replacement))
        return aff.PhonetTable(rows)
'''), file=RA)
t('aff-pattern-if', ('''            aff.CompoundPattern(left, right, rest[0] if rest else None)
            for left, right, *rest in _read_array()
''', '''            aff.CompoundPattern(line[0], line[1], line[2] if len(line) > 2 else None)
            for line in _read_array()
'''), file=RA)
t('aff-affix-vars', ('''    return kind_class(
        flag=flag,
        crossproduct=(crossproduct == 'Y'),
        strip=('' if strip == '0' else strip),
        add=('' if add == '0' else add),
        condition=cond,
        flags={*context.parse_flags(flags)}
    )''', '''    if strip == '0':
        strip = ''
    if add == '0':
        add = ''
    return kind_class(
        flag=flag, crossproduct=crossproduct == 'Y', strip=strip, add=add, condition=cond,
        flags=set(context.parse_flags(flags)))'''), file=RA)
t('aff-context-order', ('''        if directive == 'FLAG':
            context.flag_format = value
        elif directive == 'AF':
            context.flag_synonyms = value
        elif directive == 'SET':
            context.encoding = value
            source.reset_encoding(value)
        elif directive == 'IGNORE':
            context.ignore = value

        if directive == 'FLAG' and value == 'UTF-8':
            # Weirdly enough, **flag type** ``UTF-8`` implicitly states the encoding is ``UTF-8`` too...
            context.encoding = 'UTF-8'
            data['SET'] = 'UTF-8'
            source.reset_encoding('UTF-8')
''', '''        if directive == 'FLAG':
            context.flag_format = value
            if value == 'UTF-8':
                # Weirdly enough, **flag type** ``UTF-8`` implicitly states the encoding is ``UTF-8`` too...
                context.encoding = 'UTF-8'
                data['SET'] = 'UTF-8'
                source.reset_encoding('UTF-8')
        if directive == 'SET':
            context.encoding = value
            source.reset_encoding(value)
        if directive == 'AF':
            context.flag_synonyms = value
        if directive == 'IGNORE':
            context.ignore = value
'''), file=RA)
t('aff-read-array', ('''        if count is None:
            count = int(value)

''', '''        count = int(value) if count is None else count
'''), ('''        return [
            re.split(r'\\s+', ln)[1:]
            for num, ln in itertools.islice(source, count)
        ]
''', '''        rows = []
        for _, ln in itertools.islice(source, count):
            _name, *columns = re.split(r'\\s+', ln)
            rows.append(columns)
        return rows
'''), file=RA)
t('aff-split-flags', ('''        if self.flag_format == 'short':
            return string
        if self.flag_format == 'long':
            return FLAG_LONG_REGEXP.findall(string)
        if self.flag_format == 'num':
            return FLAG_NUM_REGEXP.findall(string)
        if self.flag_format == 'UTF-8':
            return string
''', '''        if self.flag_format in ('short', 'UTF-8'):
            return string
        if self.flag_format == 'num':
            return FLAG_NUM_REGEXP.findall(string)
        if self.flag_format == 'long':
            return FLAG_LONG_REGEXP.findall(string)
'''), file=RA)
t('aff-parse-flag', ('''        return list(self.split_flags(string))[0]
''', '''        first, *_ = self.split_flags(string)
        return first
'''), file=RA)
# phonetic rules
t('phonet-match', ('''            if self.start and pos > 0:
                return False
            if self.end:
                return self.search.fullmatch(word, pos)
            return self.search.match(word, pos)
''', '''            if pos > 0 and self.start:
                return False
            matcher = self.search.fullmatch if self.end else self.search.match
            return matcher(word, pos)
'''), file=DA)
t('phonet-rule-vars', ('''        text = [*m.group('letters')]
        if m.group('optional'):
            text.append('[' + m.group('optional') + ']')
        if m.group('lookahead'):
            la = len(m.group('lookahead'))
            regex = ''.join(text[:-la]) + '(?=' + ''.join(text[-la:]) + ')'
        else:
            regex = ''.join(text)
''', '''        text = list(m.group('letters'))
        optional = m.group('optional')
        if optional:
            text.append(f'[{optional}]')
        lookahead = m.group('lookahead')
        regex = ''.join(text)
        if lookahead:
            la = len(lookahead)
            regex = ''.join(text[:-la]) + '(?=' + ''.join(text[-la:]) + ')'
'''), file=DA)
t('phonet-rules-loop', ('''        for search, replacement in self.table:
            self.rules[search[0]].append(self.parse_rule(search, replacement))
''', '''        for row in self.table:
            search, replacement = row
            rule = self.parse_rule(search, replacement)
            self.rules[search[0]].append(rule)
'''), file=DA)
t('phonet-not-none', ('''        if not m:
            raise ValueError(f'Not a proper rule: {search!r}')

        text =''', '''        if m is None:
            raise ValueError(f'Not a proper rule: {search!r}')

        text ='''), file=DA)
# others
t('capitalize-slices', ('''        if len(word) == 1:
            return iter([self.upper(word[0])])
        else:
            return (self.upper(word[0]) + lower for lower in self.lower(word[1:]))
''', '''        if len(word) > 1:
            first = self.upper(word[0])
            return (first + lower for lower in self.lower(word[1:]))
        return iter([self.upper(word[0])])
'''), file=CAP)
t('edits-casing', ('''        yield Suggestion(self.aff.casing.upper(word), 'uppercase')
''', '''        casing = self.aff.casing
        yield Suggestion(casing.upper(word), 'uppercase')
'''))
t('break-matches', ('''            for m in pat.regexp.finditer(text):
''', '''            matches = pat.regexp.finditer(text)
            for m in matches:
'''), file=L)

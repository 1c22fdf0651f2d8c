"""Writes properties.jsonl (kept as a script because long lines are unpleasant to edit)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    anchors = {'files': ['spylls/hunspell/' + f for f in files],
               'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    anchors['observe_at'] = observe or ['Dictionary.lookup', 'Dictionary.suggest']
    anchors['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': anchors})


FIX = 'The tests are fixed pairs of small dictionaries and word lists; '

prop('C01', 'Queries never change the loaded dictionary',
     'Checking a word or asking for suggestions never modifies the loaded dictionary: its word list, its indexes, its '
     'affix and settings tables and everything reachable from them stay exactly as loading left them. Nothing '
     'that outlives a query is created or changed by it, so every answer is the same whatever queries were '
     'made, or left half-consumed, before it.',
     ['histories', 'inputs'], 'for every loaded dictionary, every history of earlier queries (finished or abandoned) and every word',
     FIX + 'each test asks its words once on a fresh dictionary, so state leaking from one query to another is never observed.',
     ['algo/lookup.py', 'algo/suggest.py', 'algo/permutations.py', 'algo/ngram_suggest.py', 'algo/phonet_suggest.py',
      'algo/capitalization.py', 'algo/trie.py', 'data/aff.py', 'data/dic.py', 'dictionary.py'],
     [('queries only read indexes (.get, not subscripting of the defaultdict)', 'Dic.homonyms, Trie.traverse, metaphone'),
      ('flag sets are combined by union, never in place', 'AffixForm.flags')],
     state=[('Aff / Dic', 'loaded dictionary shared by all queries', 'Dictionary.aff, Dictionary.dic')])

prop('C02', 'Answers do not depend on the process they are computed in',
     'For the same dictionary files, the result of a check and the list of suggestions with its order are the same in every process: '
     'they never depend on the iteration order of unordered collections, object identities or addresses, clock, '
     'random numbers, environment or locale.',
     ['configurations', 'inputs'], 'for every hash seed / process environment, every dictionary and word',
     'The tests run in one process with one hash seed and mostly compare lists produced from data with no ties.',
     ['algo/suggest.py', 'algo/ngram_suggest.py', 'algo/phonet_suggest.py', 'algo/lookup.py', 'algo/permutations.py', 'data/aff.py'],
     [('scored candidates are put in a total order before being cut', 'ngram_suggest.ngram_suggest, phonet_suggest.phonet_suggest'),
      ('related characters are kept as lists', 'readers.aff.read_value (MAP)')])

prop('C03', 'Every query and every load finishes',
     'Loading a finite dictionary, checking any finite word and exhausting its suggestions always terminate: every loop advances '
     'towards its end on every iteration and every recursion has a bounded depth or a strictly shrinking argument.',
     ['inputs', 'configurations'], 'for every word and every set of affix-file settings',
     FIX + 'an endless loop shows only for settings/words none of them contains (empty table entries, overlapping replacements).',
     ['algo/lookup.py', 'algo/suggest.py', 'algo/permutations.py', 'algo/phonet_suggest.py', 'algo/capitalization.py',
      'algo/trie.py', 'data/aff.py', 'readers/file_reader.py'],
     [('position advances by at least one', 'ConvTable.__call__, metaphone'),
      ('depth and nesting limits', 'Lookup.break_word, Lookup.desuffix, Lookup.deprefix'),
      ('rest of the word is shorter on each level', 'Lookup.compounds_by_flags, Lookup.compounds_by_rules')])

prop('C04', 'No query fails with an index or key error',
     'Checking a word or asking for its suggestions never raises because of a position outside of a string or list, a missing '
     'dictionary key, or an empty sequence where the first item is taken; this includes empty and one-letter words, words of only '
     'dashes or spaces, and words with characters absent from every table.',
     ['inputs', 'configurations'], 'for every string asked and every loaded dictionary',
     FIX + 'none of them asks empty or one-character words against the tables where the boundary is reached.',
     ['algo/lookup.py', 'algo/suggest.py', 'algo/permutations.py', 'algo/phonet_suggest.py', 'algo/ngram_suggest.py',
      'algo/string_metrics.py', 'algo/capitalization.py', 'algo/trie.py', 'data/aff.py'],
     [('length guards before subscripts, slices instead of subscripts', 'Casing.*, permutations.*, Suggest.suggestions, Lookup.is_bad_compound')])

prop('C05', 'Forbidden words are never accepted',
     'When the dictionary declares a forbidden-word flag, a word all of whose entries carry it is rejected, and no accepted '
     'analysis is built on an entry that carries it: not through affixes, other letter case, input conversion, breaking, '
     'nor as a part of a compound. A word that is, with or without affixes, a form of a forbidden entry is not accepted as a compound either.',
     ['inputs', 'configurations'], 'for every dictionary with a forbidden-word flag and every word',
     FIX + 'they reject a handful of forbidden words in exactly the listed spelling.',
     ['algo/lookup.py', 'data/dic.py'],
     [('whole-word check', 'Lookup.__call__'), ('candidate filter', 'Lookup.affix_forms'),
      ('compound veto', 'Lookup.compound_forms, Lookup.compounds_by_rules')], ['Dictionary.lookup'])

prop('C06', 'Affixes are applied only as the affix file allows',
     'An affixed form is analysed exactly when: stripping the affix text and restoring the stripped one leaves a stem satisfying the affix '
     'condition, the affix belongs to the stem\'s flags or to the flags of the other affix of the form, prefix and suffix are combined only if both allow '
     'cross product, and a second suffix (or, with complex prefixes, prefix) appears only if the inner affix lists the outer one\'s flag. '
     'No other analysis with affixes is accepted, and none of these is missed.',
     ['inputs', 'configurations'], 'for every affix table, dictionary and word',
     FIX + 'each uses a few affixes; the combinations of nesting, cross product and conditions are hardly sampled.',
     ['algo/lookup.py', 'data/aff.py'],
     [('suffix stripping', 'Lookup.desuffix'), ('prefix stripping', 'Lookup.deprefix'), ('combination', 'Lookup.produce_affix_forms'),
      ('flag permission', 'Lookup.is_good_form')], ['Dictionary.lookup'])

prop('C07', 'Restriction flags on stand-alone words are honoured',
     'A word analysis is rejected when its entry needs an affix and there is none (or all its affixes themselves need another one), when '
     'only one of prefix and suffix is marked as a half of a circumfix, when entry or affixes are marked for use only inside compounds, '
     'or when the entry must keep its letter case and the word\'s case type differs (except for the sharp-s rule). Without any of these reasons a correctly affixed entry is not rejected.',
     ['inputs', 'configurations'], 'for every combination of restriction flags and every word',
     FIX + 'each flag is tried alone in one dictionary.',
     ['algo/lookup.py'],
     [('flag checks', 'Lookup.is_good_form'), ('sharp s', 'Lookup.good_forms')], ['Dictionary.lookup'])

prop('C08', 'Compound parts obey the compounding flags and limits',
     'A word is analysed as a compound only by cutting it into parts none shorter than the minimum and no more than the maximum number of parts, where each '
     'part is an allowed form flagged for its place (first, middle, last, or any), affixes inside the compound only with the permitting flag, '
     'and never with the forbidding flag; or by a compound rule whose pattern the flags of the parts match as a whole. Every such cut is considered.',
     ['inputs', 'configurations'], 'for every compounding setup and every word',
     FIX + 'most compound dictionaries have two-part examples only.',
     ['algo/lookup.py', 'data/aff.py'],
     [('by flags', 'Lookup.compounds_by_flags, Lookup.is_good_form'), ('by rules', 'Lookup.compounds_by_rules')], ['Dictionary.lookup'])

prop('C09', 'Compound vetoes are applied to every compound',
     'Every compound found, by flags or by rules, is rejected when at some boundary between its neighbouring parts one of the enabled checks '
     'applies (a part forbidden in compounds, the two parts being a dictionary phrase, a likely replacement mistake, triple letter, letter case, '
     'boundary pattern, duplicated last part), or its last part demands an initial capital the word lacks. A compound is rejected by these checks only if the check is enabled and applies.',
     ['inputs', 'configurations'], 'for every set of enabled compound checks and every compound',
     FIX + 'each check is enabled alone, on two-part compounds.',
     ['algo/lookup.py', 'data/aff.py'],
     [('checks', 'Lookup.is_bad_compound'), ('application', 'Lookup.compound_forms')], ['Dictionary.lookup'])

prop('C10', 'Case variants tried for a word follow its case type',
     'A word is looked up as written; a capitalised one also in lower case; one in all capitals also in lower case and capitalised; '
     'a mixed-case one starting with a capital also with its first letter lowered; nothing else is tried. The case type is decided by the word\'s letters '
     'alone, and every analysis found for any tried variant makes the word correct.',
     ['inputs', 'configurations'], 'for every word and casing rules (default, Turkic, German)',
     FIX + 'few of them contain mixed-case or one-letter words.',
     ['algo/capitalization.py', 'algo/lookup.py'],
     [('classification', 'Casing.guess'), ('variants', 'Casing.variants'), ('use', 'Lookup.good_forms')], ['Dictionary.lookup'])

prop('C11', 'Input is converted, cleaned, then judged',
     'A checked word first goes through the input conversion table, then loses the ignored characters, and only then is judged: plain numbers are correct, '
     'otherwise the word is correct exactly when for some breaking all its non-empty parts are correct.',
     ['inputs', 'configurations'], 'for every conversion table, ignored characters and word',
     FIX + 'conversion and ignored characters are never combined in one dictionary.',
     ['algo/lookup.py'], [('entry point', 'Lookup.__call__')], ['Dictionary.lookup'])

prop('C12', 'Words are broken exactly at the break patterns',
     'The breakings of a word are: the word itself, and for each place where a break pattern matches, the text before the matched break followed by any breaking '
     'of the text after it, to a fixed depth. No letters are lost or added besides the break text itself.',
     ['inputs', 'configurations'], 'for every list of break patterns and every word',
     FIX + 'words with several different break characters are rare in them.',
     ['algo/lookup.py', 'data/aff.py'], [('breaking', 'Lookup.break_word'), ('patterns', 'BreakPattern')], ['Dictionary.lookup'])

prop('C13', 'Conversion tables replace the longest match at each position',
     'Input and output conversion scan the word from left to right; at each position the longest matching table entry is replaced by its replacement and skipped, '
     'and where nothing matches the character is copied unchanged. Entries marked for the start or the end of the word match only there.',
     ['inputs', 'configurations'], 'for every conversion table and word',
     FIX + 'conversion tables in them are one-to-one character maps.',
     ['data/aff.py'], [('conversion', 'ConvTable.__post_init__, ConvTable.__call__')])

prop('C14', 'Forbidden words are never suggested',
     'No suggestion, whatever way it was found, has a text that (before output conversion) is a dictionary entry with the forbidden-word flag.',
     ['inputs', 'configurations'], 'for every dictionary and every misspelling',
     FIX + 'suggestion tests have two forbidden words in total.',
     ['algo/suggest.py', 'data/dic.py'],
     [('final filter all suggestions pass through', 'Suggest.suggestions (handle_found)'),
      ('list of words for the n-gram search', 'Suggest.__init__')], ['Dictionary.suggest'])

prop('C15', 'The same suggestion is never given twice',
     'The texts of suggestions given for one word are pairwise distinct, after case adjustment and output conversion.',
     ['inputs', 'configurations'], 'for every dictionary and every misspelling',
     FIX + 'only listed results are compared; coincidences of several kinds of edits after conversion are not explored.',
     ['algo/suggest.py'], [('set of already given texts', 'Suggest.suggestions (handle_found)')], ['Dictionary.suggest'])

prop('C16', 'Words marked not to be suggested are not suggested',
     'No suggestion is validated through, or taken from, a dictionary entry that carries the no-suggest flag: not by edits, case changes, splitting, dashes, compounds, '
     'nor by similarity search; the similarity search also never starts from forbidden or compound-only entries.',
     ['inputs', 'configurations'], 'for every dictionary and every misspelling',
     FIX + 'two dictionaries have the flag.',
     ['algo/suggest.py', 'algo/lookup.py'],
     [('no-suggest entries excluded from validation', 'Suggest.suggestions, Suggest.edit_suggestions, Lookup.is_good_form, Lookup.compounds_by_rules'),
      ('and from similarity search', 'Suggest.__init__')], ['Dictionary.suggest'])

prop('C17', 'Suggestions made by edits are correct words',
     'Every suggestion that is not found by n-gram or phonetic similarity is given only after its text (each of its words, for a split) was confirmed as correct '
     'by the checker exactly as written, ignoring no-suggest words; edits are confirmed first as non-compounds and then, separately, as compounds.',
     ['inputs', 'configurations'], 'for every dictionary and misspelling',
     FIX + 'suggested texts are compared to lists, never re-checked.',
     ['algo/suggest.py'], [('validation', 'Suggest.suggestions, Suggest.edit_suggestions')], ['Dictionary.suggest'])

prop('C18', 'Numbers of suggestions are limited as configured',
     'For one case variant of the word at most the fixed maximum of non-compound edits and at most the configured maximum of compound edits are given, '
     'and for a word at most the configured maximum of n-gram suggestions (none, if zero) and at most two phonetic ones.',
     ['inputs', 'configurations'], 'for every setting of the limits and every misspelling',
     FIX + 'limits are never reached in them.',
     ['algo/suggest.py'], [('counters', 'Suggest.suggestions, Suggest.edit_suggestions')], ['Dictionary.suggest'])

prop('C19', 'Suggestions follow the letter case of the word asked',
     'A suggestion is given in the letter case of the misspelled word (first capital or all capitals), unless its entry must keep its case or the adjusted form is forbidden, '
     'and passes through the output conversion exactly once before it is compared with earlier ones and given.',
     ['inputs', 'configurations'], 'for every dictionary, output conversion table and misspelling',
     FIX + 'only three of them have output conversion.',
     ['algo/suggest.py', 'algo/capitalization.py'], [('final adjustment', 'Suggest.suggestions (handle_found)'), ('coercion', 'Casing.coerce')], ['Dictionary.suggest'])

prop('C20', 'Each kind of edit produces exactly its edits',
     'The edits tried for a word are exactly those of their kinds: replacement-table and related-character substitutions, adjacent swaps (and double swaps of 4-5 letter words), '
     'swaps at distance, keyboard neighbours, one letter removed, one letter inserted anywhere, one letter moved, one letter replaced, a repeated pair dropped, and every split in two. '
     'Every edit changes only the letters its kind says and keeps all others in order.',
     ['inputs'], 'for every word and every settings table used by edits',
     FIX + 'each kind of edit appears for some single word and position.',
     ['algo/permutations.py'], [('generators', 'permutations.*')], ['Dictionary.suggest'])

prop('C21', 'Kinds of suggestions are tried in order and as enabled',
     'Kinds of edits are tried in the fixed order of their priority, each with the table the affix file gives for it; splitting in two only if not disabled, with a dash only if the try-characters allow it; '
     'n-gram search only if its limit is not zero, phonetic one only if the table is present; and none of the later stages once a good edit is found or a whole phrase is in the dictionary.',
     ['inputs', 'configurations'], 'for every set of suggestion settings and every misspelling',
     FIX + 'each switch has one dictionary.',
     ['algo/suggest.py'], [('stages', 'Suggest.suggestions, Suggest.edits, Suggest.ngram_suggestions, Suggest.phonet_suggestions')], ['Dictionary.suggest'])

prop('C22', 'Every affix-file directive is read into its setting',
     'Every supported directive of the affix file is read, by its own name or documented synonym, into the setting of the same name with the type and meaning that setting has (text, number, flag, switch, table); '
     'tables consume exactly as many following lines as declared; no directive changes another setting; unknown directives are ignored.',
     ['inputs', 'configurations'], 'for every affix file',
     FIX + 'directives that only a few of them contain can be misread in any other context unnoticed.',
     ['readers/aff.py', 'data/aff.py'], [('directive reading', 'readers.aff.read_value, read_directive, read_aff'), ('settings', 'Aff')],
     ['Dictionary.from_files', 'Dictionary.from_zip'])

prop('C23', 'Encoding, flag format and ignored characters apply to both files',
     'Encoding, flag format, flag aliases and ignored characters declared in the affix file govern the reading of all the following lines of it and of the whole word list, in the same way for plain files and for zip archives. '
     'Flags are split by the declared format (single characters, pairs, numbers), with a numeric alias expanded to the flags it stands for.',
     ['inputs', 'configurations'], 'for every pair of files and way of loading',
     FIX + 'none of them is loaded from a zip archive.',
     ['readers/aff.py', 'readers/dic.py', 'dictionary.py', 'readers/file_reader.py'],
     [('reading context', 'readers.aff.Context, read_aff, make_affix, read_dic, Dictionary.from_files, Dictionary.from_zip')],
     ['Dictionary.from_files', 'Dictionary.from_zip'])

prop('C24', 'Every word-list line becomes a findable entry',
     'Every non-empty line of the word list except the leading count becomes one entry with its stem, flags and data, findable by its exact stem and by each of its lower-case forms; '
     'stems keep escaped slashes, flags come only after the first unescaped slash, data only after a tab or a space and tag; "ph:" data adds the documented replacement pairs.',
     ['inputs', 'configurations'], 'for every word-list file',
     FIX + 'their word lists are a few lines long.',
     ['readers/dic.py', 'data/dic.py'], [('line parsing', 'readers.dic.read_dic, parse_data'), ('indexes', 'Dic.append, Dic.homonyms, Dic.has_flag')],
     ['Dictionary.from_files', 'Dictionary.lookup'])

prop('C25', 'Texts from dictionary files are matched literally',
     'Affix texts, replacement-table patterns, conversion patterns, break patterns and compound-rule flags taken from the files are matched as literal text (apart from the documented anchors and the documented affix conditions), '
     'whatever punctuation they contain.',
     ['inputs', 'configurations'], 'for every affix file',
     FIX + 'only letters, digits and dashes occur in their tables.',
     ['data/aff.py', 'readers/aff.py'], [('escaping before a regular expression is made', 'data.aff: *.__post_init__')])

prop('C26', 'Affix search finds every affix the word could carry',
     'For any word the affix search returns exactly the affixes whose text the word starts with (prefixes) or ends with (suffixes), the empty ones included.',
     ['inputs', 'configurations'], 'for every affix table and word',
     FIX + 'affix tables with shared beginnings and empty affixes are few.',
     ['data/aff.py', 'algo/trie.py', 'algo/lookup.py'],
     [('index building', 'Aff.__post_init__'), ('search', 'Trie.lookup, Trie.traverse, Lookup.desuffix, Lookup.deprefix')], ['Dictionary.lookup'])

prop('C27', 'Loading and queries only read the named dictionary files',
     'The library opens only the affix and word files (or the archive) of the dictionary it was asked to load, only for reading; queries open nothing; and nothing read from the files is ever run as code, '
     'and no process, network or environment is touched.',
     ['inputs', 'configurations'], 'for every dictionary (including hostile ones) and every query',
     'Tests observe return values only, never system effects.',
     ['dictionary.py', 'readers/file_reader.py', 'readers/aff.py', 'readers/dic.py'],
     [('file access only in the readers', 'FileReader._open, ZipReader._open, Dictionary.from_zip')],
     ['Dictionary.from_files', 'Dictionary.from_zip', 'Dictionary.lookup', 'Dictionary.suggest'])

prop('C28', 'Reading lines survives a change of encoding',
     'The reader gives every non-empty line of the file, stripped, exactly once, in order, with its number, without the byte-order mark; when the encoding changes in the middle, reading goes on from the next line in the new encoding.',
     ['inputs', 'histories'], 'for every file and every place the encoding is changed',
     FIX + 'encoding is declared in the first line in most of them.',
     ['readers/file_reader.py'], [('line counter kept over reopening', 'BaseReader.readlines, BaseReader.reset_io, FileReader.reset_encoding, ZipReader.reset_encoding')],
     ['Dictionary.from_files', 'Dictionary.from_zip'])

prop('C29', 'Similarity search proposes only real forms of words',
     'Every form proposed by the n-gram search for a root is the root itself, an alternative spelling\'s root, or the root with a suffix, prefix or both that its flags list, whose condition holds for the root and that the misspelling itself has, '
     'both only when cross product is allowed.',
     ['inputs', 'configurations'], 'for every dictionary and misspelling',
     FIX + 'n-gram suggestions are compared for about ten words.',
     ['algo/ngram_suggest.py'], [('form generation', 'ngram_suggest.forms_for, ngram_suggest.ngram_suggest')], ['Dictionary.suggest'])

prop('C30', 'Uncertain similarity suggestions are dropped as documented',
     'Of scored n-gram guesses, once a near-exact one is given the ones that are not near-exact are dropped; questionable ones are given only if nothing better was found before them and they are not switched off, and then only one; '
     'and no guess containing an already given suggestion is given.',
     ['inputs', 'configurations'], 'for every list of scored guesses and settings',
     FIX + 'they have no dictionary with both sure and questionable guesses.',
     ['algo/ngram_suggest.py'], [('final filter', 'ngram_suggest.filter_guesses')], ['Dictionary.suggest'])

prop('C31', 'N-gram and phonetic search rank the nearest words first',
     'Suggestions found by n-gram or phonetic similarity come in non-increasing order of the documented similarity score, computed over the hundred best roots.',
     ['inputs'], 'for every word list and misspelling',
     FIX + 'scores are never observed.',
     ['algo/ngram_suggest.py', 'algo/phonet_suggest.py', 'algo/string_metrics.py'],
     [('scores', 'ngram_suggest.*_score, string_metrics.*')], ['Dictionary.suggest'])

prop('C32', 'Checking a word stays fast',
     'Time to check a word or to produce its suggestions grows at most polynomially in its length for any fixed dictionary.',
     ['inputs'], 'for every word',
     FIX + 'all words in them are short.',
     ['algo/lookup.py', 'algo/permutations.py'], [('depth limits', 'Lookup.break_word')])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))

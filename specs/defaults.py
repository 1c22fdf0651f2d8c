"""
Arguments that may be left out, and what they are then.
"""

DEFAULTS = {
    'algo.lookup:Lookup.__call__': {'capitalization': True, 'allow_nosuggest': True},
    'algo.lookup:Lookup.good_forms': {'capitalization': True, 'allow_nosuggest': True, 'affix_forms': True,
                                      'compound_forms': True},
    'algo.lookup:Lookup.affix_forms': {'allow_nosuggest': True, 'prefix_flags': [], 'suffix_flags': [],
                                       'forbidden_flags': [], 'compoundpos': None, 'with_forbidden': False},
    'algo.lookup:Lookup.produce_affix_forms': {'compoundpos': None},
    'algo.lookup:Lookup.is_good_form': {'allow_nosuggest': True},
    'algo.lookup:Lookup.break_word': {'depth': 0},
    'algo.lookup:Lookup.desuffix': {'nested': False, 'crossproduct': False},
    'algo.lookup:Lookup.deprefix': {'nested': False},
    'algo.lookup:Lookup.compound_forms': {'allow_nosuggest': True},
    'algo.lookup:Lookup.compounds_by_flags': {'depth': 0, 'allow_nosuggest': True},
    'algo.lookup:Lookup.compounds_by_rules': {'prev_parts': [], 'rules': None, 'allow_nosuggest': True},
    'algo.ngram_suggest:ngram_suggest': {'onlymaxdiff': False, 'has_phonetic': False},
    'algo.ngram_suggest:filter_guesses': {'onlymaxdiff': True},
    'algo.string_metrics:ngram': {'weighted': False, 'any_mismatch': False, 'longer_worse': False},
    'algo.suggest:MultiWordSuggestion.stringify': {'separator': ' '},
    'algo.trie:Trie.traverse': {'traversed': []},
    'data.dic:Dic.has_flag': {'for_all': False},
    'data.dic:Dic.homonyms': {'ignorecase': False},
    'readers.file_reader:FileReader.__init__': {'encoding': 'Windows-1252'},
    'readers.file_reader:ZipReader.__init__': {'encoding': 'Windows-1252'},
}

From a937f49c0477423228e5f5859b31df2fa6fc6840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:01:32 +0000
Subject: [PATCH 01/29] fix: index lowercase words by their whole stem

Dic.append expects a list of lowercase forms. A lowercase stem was passed as a
plain string, so it was indexed by each of its letters, and any single
uppercase letter used in some stem was accepted as a correct word.
---
 spylls/hunspell/readers/dic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/readers/dic.py b/spylls/hunspell/readers/dic.py
index 02c690d..6d23e11 100644
--- a/spylls/hunspell/readers/dic.py
+++ b/spylls/hunspell/readers/dic.py
@@ -82,7 +82,7 @@ def read_dic(source: BaseReader, *, aff: Aff, context: Context) -> dic.Dic:
 
         # And cache word's casing and its lowerase form
         captype = aff.casing.guess(word)
-        lower = aff.casing.lower(word) if captype != CapType.NO else word
+        lower = aff.casing.lower(word) if captype != CapType.NO else [word]
 
         alt_spellings = []
 
-- 
2.43.0


From b2605d6a3a7a2ef27d256f9c44765622039d56a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:01:35 +0000
Subject: [PATCH 02/29] fix: do not accept forbidden entries reached through
 casing, ICONV or BREAK

The FORBIDDENWORD check was done only for the text passed to lookup. With
"foo" forbidden, "Foo", "FOO" and "foo-bar" were still correct.
---
 spylls/hunspell/algo/lookup.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 9f86dd9..fc6988d 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -403,6 +403,11 @@ class Lookup:
                 return
 
             for homonym in homonyms:
+                # An entry marked as forbidden never makes the word correct, no matter how we came to it
+                # (other casing of the word, its part after breaking, or its text after ICONV).
+                if not with_forbidden and self.aff.FORBIDDENWORD and self.aff.FORBIDDENWORD in homonym.flags:
+                    continue
+
                 # Now, for each possible homonym of word's stem, we check it at is a "good form"
                 # (basically, stem's flags & suffixes flags allow to be combined to each other, and
                 # also allow to be in compound word, if that's the case).
-- 
2.43.0


From 083edeba9f22861e43c08d9ef03c249ddd64c260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:03:48 +0000
Subject: [PATCH 03/29] fix: handle suggestions for dashed words like all the
 other ones

Suggestions made by correcting one part of a dashed word were returned as is.
They could repeat in the output, be forbidden words or words marked with
NOSUGGEST, and they missed the OCONV conversion.
---
 spylls/hunspell/algo/suggest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index bc081e9..303c411 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -334,8 +334,8 @@ class Suggest:
                         # are ambiguities how to split: if we are fixing "quas-Afro-American"->"quasi-Afro-American",
                         # and "Afro-American" is present in the dictionary as a whole word, it is better
                         # to delegate search for the right breaking to the Lookup.
-                        if self.lookup(candidate):
-                            yield Suggestion(candidate, 'dashes')
+                        if self.lookup(candidate, allow_nosuggest=False):
+                            yield from handle_found(Suggestion(candidate, 'dashes'))
                     # after only one misspelled chunk, we stop the search anyways, whether we found some
                     # sugestions or not
                     break
-- 
2.43.0


From 04fbde66e15436bd64914e730130f3e8d58fcd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:03:51 +0000
Subject: [PATCH 04/29] fix: do not fail on suggested phrase longer than the
 misspelled word

With mixed-case input, the letter after the space is compared with the letter
of the input at the same place, which may not exist.
---
 spylls/hunspell/algo/suggest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index 303c411..8a3ec69 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -220,7 +220,8 @@ class Suggest:
                 # "aNew" will suggest "a new", here we fix it back to "a New"
                 if captype in [CapType.HUH, CapType.HUHINIT] and ' ' in text:
                     pos = text.find(' ')
-                    if text[pos + 1] != word[pos] and text[pos + 1].upper() == word[pos]:
+                    if (pos + 1 < len(text) and pos < len(word) and
+                            text[pos + 1] != word[pos] and text[pos + 1].upper() == word[pos]):
                         text = text[:pos+1] + word[pos] + text[pos+2:]
 
             # If the word is forbidden, nothing more to do
-- 
2.43.0


From d1ef9de9c2f611515161300d715a9d65ae0e0267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:03:53 +0000
Subject: [PATCH 05/29] fix: German lowercasing of words which have no
 lowercase form
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The generic lower() returns an empty list for the empty string and for words
starting with "İ". The German version took its first item and failed.
---
 spylls/hunspell/algo/capitalization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spylls/hunspell/algo/capitalization.py b/spylls/hunspell/algo/capitalization.py
index cd69706..be71988 100644
--- a/spylls/hunspell/algo/capitalization.py
+++ b/spylls/hunspell/algo/capitalization.py
@@ -200,12 +200,12 @@ class GermanCasing(Casing):
             replaced = text[:pos] + 'ß' + text[pos+2:]
             return [replaced, *sharp_s_variants(replaced, pos+1), *sharp_s_variants(text, pos+2)]
 
-        lowered = super().lower(word)[0]
+        result = super().lower(word)
 
         if 'SS' in word:
-            return [*sharp_s_variants(lowered), lowered]
+            return [variant for lowered in result for variant in [*sharp_s_variants(lowered), lowered]]
 
-        return [lowered]
+        return result
 
     def guess(self, word):
         result = super().guess(word)
-- 
2.43.0


From b3918774f388926bd2ae9d0f0402060e490f5360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:03:56 +0000
Subject: [PATCH 06/29] fix: allow to coerce casing of the empty string

---
 spylls/hunspell/algo/capitalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/capitalization.py b/spylls/hunspell/algo/capitalization.py
index be71988..cbde0b5 100644
--- a/spylls/hunspell/algo/capitalization.py
+++ b/spylls/hunspell/algo/capitalization.py
@@ -154,7 +154,7 @@ class Casing:
         found suggestion "kitten", then this method makes it "Kitten".
         """
         if cap in (Type.INIT, Type.HUHINIT):
-            return self.upper(word[0]) + word[1:]
+            return self.upper(word[:1]) + word[1:]
         if cap == Type.ALL:
             return self.upper(word)
         return word
-- 
2.43.0


From 32ed17b53d3c12a049279a1a9c54bc78fa5aada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:03:58 +0000
Subject: [PATCH 07/29] fix: capitalize one-letter words whose uppercase form
 is longer
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

"ß" is uppercased to "SS", which was iterated by letters.
---
 spylls/hunspell/algo/capitalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/capitalization.py b/spylls/hunspell/algo/capitalization.py
index cbde0b5..20e868d 100644
--- a/spylls/hunspell/algo/capitalization.py
+++ b/spylls/hunspell/algo/capitalization.py
@@ -84,7 +84,7 @@ class Casing:
             word:
         """
         if len(word) == 1:
-            return iter(self.upper(word[0]))
+            return iter([self.upper(word[0])])
         else:
             return (self.upper(word[0]) + lower for lower in self.lower(word[1:]))
 
-- 
2.43.0


From 725602fe7490d499beee1956a08c678a42dd07ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:04:02 +0000
Subject: [PATCH 08/29] fix: return no more edit suggestions than the limit
 allows

The limit was checked with an off-by-one error, so MAXCPDSUGS 0 still gave one
compound suggestion.
---
 spylls/hunspell/algo/suggest.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index 8a3ec69..015c83c 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -388,6 +388,9 @@ class Suggest:
                     if is_good_suggestion(suggestion.text):
                         yield suggestion
 
+        if limit <= 0:
+            return
+
         count = 0
 
         for suggestion in filter_suggestions(self.edits(word)):
@@ -399,7 +402,7 @@ class Suggest:
                 yield res
                 count += 1
 
-                if count > limit:
+                if count >= limit:
                     return
 
     def edits(self, word: str) -> Iterator[Union[Suggestion, MultiWordSuggestion]]:
-- 
2.43.0


From 8525e4d8150e0a11900a38f04f40244b4b8a6ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:04:05 +0000
Subject: [PATCH 09/29] fix: do not change the PHONE table while suggesting

Rules are stored in defaultdict, so each new letter added an entry to it.
---
 spylls/hunspell/algo/phonet_suggest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/phonet_suggest.py b/spylls/hunspell/algo/phonet_suggest.py
index 77de4f6..1327f0a 100644
--- a/spylls/hunspell/algo/phonet_suggest.py
+++ b/spylls/hunspell/algo/phonet_suggest.py
@@ -115,7 +115,7 @@ def metaphone(table: aff.PhonetTable, word: str) -> str:
     # http://aspell.net/man-html/Phonetic-Code.html
     while pos < len(word):
         match = None
-        for rule in table.rules[word[pos]]:
+        for rule in table.rules.get(word[pos], []):
             match = rule.match(word, pos)
             if match:
                 res += rule.replacement
-- 
2.43.0


From bbd48add13e4028daf239b8e93c10aad5c1b911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:04:08 +0000
Subject: [PATCH 10/29] fix: always advance in metaphone calculation

A rule with the empty match (like "A-") made the loop infinite.
---
 spylls/hunspell/algo/phonet_suggest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/phonet_suggest.py b/spylls/hunspell/algo/phonet_suggest.py
index 1327f0a..de6f46f 100644
--- a/spylls/hunspell/algo/phonet_suggest.py
+++ b/spylls/hunspell/algo/phonet_suggest.py
@@ -119,7 +119,7 @@ def metaphone(table: aff.PhonetTable, word: str) -> str:
             match = rule.match(word, pos)
             if match:
                 res += rule.replacement
-                pos += match.span()[1] - match.span()[0]
+                pos += max(match.span()[1] - match.span()[0], 1)
                 break
         if not match:
             pos += 1
-- 
2.43.0


From 49e6095fe84385d62c7b943e0dc2049a4ccfa75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:04:59 +0000
Subject: [PATCH 11/29] fix: treat affix text literally

Affixes with regexp special chars, like "(s)", were never stripped, and the
affixed words were considered misspelled.
---
 spylls/hunspell/data/aff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 8f7e450..c665127 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -234,7 +234,7 @@ class Prefix(Affix):
     def __post_init__(self):
         # "-" does NOT have a special regex-meaning, while might happen as a regular word char (for ex., hu_HU)
         self.cond_regexp = re.compile('^' + self.condition.replace('-', '\\-'))
-        self.replace_regexp = re.compile('^' + self.add)
+        self.replace_regexp = re.compile('^' + re.escape(self.add))
 
     def __repr__(self):
         return (
@@ -253,7 +253,7 @@ class Suffix(Affix):
     def __post_init__(self):
         # "-" does NOT have a special regex-meaning, while might happen as a regular word char (for ex., hu_HU)
         self.cond_regexp = re.compile(self.condition.replace('-', '\\-') + '$')
-        self.replace_regexp = re.compile(self.add + '$')
+        self.replace_regexp = re.compile(re.escape(self.add) + '$')
 
     def __repr__(self):
         return (
-- 
2.43.0


From 84dd29cdfcf9f5b707bfff8dfa712dedd72b7bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:05:02 +0000
Subject: [PATCH 12/29] fix: treat REP patterns literally

Only "^" and "$" are special in REP. With other regexp special chars, pattern
either matched wrong text or failed to load.
---
 spylls/hunspell/data/aff.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index c665127..d655f92 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -154,7 +154,8 @@ class RepPattern:
     replacement: str
 
     def __post_init__(self):
-        self.regexp = re.compile(self.pattern)
+        pattern = re.escape(self.pattern).replace('\\^', '^').replace('\\$', '$')
+        self.regexp = re.compile(pattern)
 
 
 @dataclass
-- 
2.43.0


From 21d3c825ec62a47d2ef78442acdabbbe234b2166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:05:05 +0000
Subject: [PATCH 13/29] fix: treat ICONV and OCONV patterns literally
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

"ICONV ... …" replaced any three characters instead of three dots.
---
 spylls/hunspell/data/aff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index d655f92..2195669 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -426,7 +426,7 @@ class ConvTable:
     def __post_init__(self):
         def compile_row(pat1, pat2):
             pat1clean = pat1.replace('_', '')
-            pat1re = pat1clean
+            pat1re = re.escape(pat1clean)
             if pat1.startswith('_'):
                 pat1re = '^' + pat1re
             if pat1.endswith('_'):
-- 
2.43.0


From 48d2a0fb465ee1daf5b64bf9ec1ef03cec029c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:05:08 +0000
Subject: [PATCH 14/29] fix: ignore conversion rules with the empty pattern

Rule consisting only of "_" could match without advancing in the word, making
the conversion loop infinite.
---
 spylls/hunspell/data/aff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 2195669..50cf03b 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -444,7 +444,7 @@ class ConvTable:
             matches = sorted(
                 [(search, pattern, replacement)
                  for search, pattern, replacement in self.table
-                 if pattern.match(word, pos)],
+                 if search and pattern.match(word, pos)],
                 key=lambda r: len(r[0]),
                 reverse=True
             )
-- 
2.43.0


From 0db5040cac8083e0cb404b8ca0523682914e2296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:05:11 +0000
Subject: [PATCH 15/29] fix: treat flags in COMPOUNDRULE literally

Flags which are regexp special chars, like ".", matched any other flag.
---
 spylls/hunspell/data/aff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 50cf03b..41ecb8a 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -311,13 +311,13 @@ class CompoundRule:
         # This works but is super ad-hoc!
         if '(' in self.text:
             self.flags = set(re.findall(r'\((.+?)\)', self.text))
-            parts = re.findall(r'\([^*?]+?\)[*?]?', self.text)
+            parts = [f"({re.escape(flag)}){times}" for flag, times in re.findall(r'\(([^*?]+?)\)([*?]?)', self.text)]
         else:
             self.flags = set(re.sub(r'[\*\?]', '', self.text))
             # There are ) flags used in real-life sv_* dictionaries
             # Obviously it is quite ad-hoc (other chars that have special meaning in regexp might be
             # used eventually)
-            parts = [part.replace(')', '\\)') for part in re.findall(r'[^*?][*?]?', self.text)]
+            parts = [re.escape(part[0]) + part[1:] for part in re.findall(r'[^*?][*?]?', self.text)]
 
         self.re = re.compile(''.join(parts))
         self.partial_re = re.compile(
-- 
2.43.0


From 93fa2da4c1855dcb1d7ac82b8156c2aa2b4b0d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:05:15 +0000
Subject: [PATCH 16/29] fix: do not replace again inside the text just put by
 MAP

With MAP entries like "l(ll)", where the replacement contains the replaced
string, suggest failed with RecursionError.
---
 spylls/hunspell/algo/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/permutations.py b/spylls/hunspell/algo/permutations.py
index d6e1089..70f39d2 100644
--- a/spylls/hunspell/algo/permutations.py
+++ b/spylls/hunspell/algo/permutations.py
@@ -70,7 +70,7 @@ def mapchars(word: str, maptable: List[Set[str]]) -> Iterator[str]:
                             continue
                         replaced = word[:pos] + other + word[pos+len(option):]
                         yield replaced
-                        for variant in mapchars_internal(replaced, pos + 1):
+                        for variant in mapchars_internal(replaced, pos + len(other)):
                             yield variant
 
     yield from mapchars_internal(word)
-- 
2.43.0


From ffacbc335940c77ff84cda70a42596da0526c08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:05:18 +0000
Subject: [PATCH 17/29] fix: do not take the end of the word for its beginning
 in doubletwochars

For the third letter, the check of the doubled pair used negative index.
---
 spylls/hunspell/algo/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/permutations.py b/spylls/hunspell/algo/permutations.py
index 70f39d2..4022bad 100644
--- a/spylls/hunspell/algo/permutations.py
+++ b/spylls/hunspell/algo/permutations.py
@@ -204,7 +204,7 @@ def doubletwochars(word: str) -> Iterator[str]:
 
     # TODO: 1) for vacacation yields "vacation" twice, hunspell's algo kinda wiser
     # 2) maybe just use regexp?..
-    for i in range(2, len(word)):
+    for i in range(3, len(word)):
         if word[i-2] == word[i] and word[i-3] == word[i-1]:
             yield word[:i-1] + word[i+1:]
 
-- 
2.43.0


From 9971610690283d8ce780363c0a1fc145cb8c2d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:05:20 +0000
Subject: [PATCH 18/29] fix: ignore byte-order mark in files read as UTF-8

It was ignored only in Windows-1252, so the first word of UTF-8 .dic file without
the words count was broken.
---
 spylls/hunspell/readers/file_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spylls/hunspell/readers/file_reader.py b/spylls/hunspell/readers/file_reader.py
index 95fb10c..328f457 100644
--- a/spylls/hunspell/readers/file_reader.py
+++ b/spylls/hunspell/readers/file_reader.py
@@ -46,6 +46,8 @@ class BaseReader:
             self.line_no += 1
             if self.line_no == 1 and ln.startswith("\xef\xbb\xbf"):
                 ln = ln.replace("\xef\xbb\xbf", '')
+            if self.line_no == 1 and ln.startswith("\ufeff"):
+                ln = ln.replace("\ufeff", '')
             yield (self.line_no, ln.strip())
             ln = self.io.readline()
 
-- 
2.43.0


From 7b6ac722a67e62ffc29f7eb6d8c56f41b91e8c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:05:24 +0000
Subject: [PATCH 19/29] fix: keep the order of morphology aliases

AM values were stored in sets, so the order of tags (and of REP patterns made
from them) was different in each process.
---
 spylls/hunspell/data/aff.py    | 2 +-
 spylls/hunspell/readers/aff.py | 2 +-
 spylls/hunspell/readers/dic.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 41ecb8a..aefc3e7 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -1110,7 +1110,7 @@ class Aff:
     #: Table of word data aliases. Logic of aliasing is the same as for :attr:`AM`.
     #:
     #: *Usage:* :meth:`read_dic <spylls.hunspell.readers.dic.read_dic>`
-    AM: Dict[str, Set[str]] = field(default_factory=dict)
+    AM: Dict[str, List[str]] = field(default_factory=dict)
 
     # **Other**
 
diff --git a/spylls/hunspell/readers/aff.py b/spylls/hunspell/readers/aff.py
index 4248bfa..2344461 100644
--- a/spylls/hunspell/readers/aff.py
+++ b/spylls/hunspell/readers/aff.py
@@ -262,7 +262,7 @@ def read_value(source: BaseReader, directive: str, *values, context: Context) ->
         }
     if directive == 'AM':
         return {
-            str(i + 1): {*ln}
+            str(i + 1): ln
             for i, ln in enumerate(_read_array())
         }
     if directive == 'COMPOUNDSYLLABLE':
diff --git a/spylls/hunspell/readers/dic.py b/spylls/hunspell/readers/dic.py
index 6d23e11..1396178 100644
--- a/spylls/hunspell/readers/dic.py
+++ b/spylls/hunspell/readers/dic.py
@@ -1,7 +1,7 @@
 from collections import defaultdict
 import re
 
-from typing import List, Dict, Set, Optional
+from typing import List, Dict, Optional
 
 from spylls.hunspell.data import dic
 from spylls.hunspell.data.aff import Aff, RepPattern
@@ -124,7 +124,7 @@ def read_dic(source: BaseReader, *, aff: Aff, context: Context) -> dic.Dic:
     return result
 
 
-def parse_data(text: str, aliases: Dict[str, Set[str]]) -> Dict[str, List[str]]:
+def parse_data(text: str, aliases: Dict[str, List[str]]) -> Dict[str, List[str]]:
     """
     Parse data tags after stem.
     There can be *anything* in this part of the data, but parsed and processed are:
-- 
2.43.0


From d5c79637d17e250cc34f3fa10459370d95e60aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:05:27 +0000
Subject: [PATCH 20/29] fix: do not look for flag aliases in directives with a
 single flag

Only flag sets of words and affixes can be aliases. With AF table present,
"NOSUGGEST 1" took a random flag of the first alias, and numeric flags which
are not alias numbers failed to load.
---
 spylls/hunspell/readers/aff.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/readers/aff.py b/spylls/hunspell/readers/aff.py
index 2344461..9b1fb01 100644
--- a/spylls/hunspell/readers/aff.py
+++ b/spylls/hunspell/readers/aff.py
@@ -57,7 +57,7 @@ class Context:
         """
         Parse singular flag, considering attr:`flag_format`.
         """
-        return list(self.parse_flags(string))[0]
+        return list(self.split_flags(string))[0]
 
     def parse_flags(self, string: str) -> Iterable[str]:
         """
@@ -70,6 +70,13 @@ class Context:
         if self.flag_synonyms and string.isdigit():
             return self.flag_synonyms[string]
 
+        return self.split_flags(string)
+
+    def split_flags(self, string: str) -> Iterable[str]:
+        """
+        Split string of flags into separate ones, considering attr:`flag_format`.
+        """
+
         # TODO: what if string format doesn't match expected (odd number of chars for long, etc.)?
         if self.flag_format == 'short':
             return string
-- 
2.43.0


From d94e6a2522890944a8a245fb168b1eb6830b615c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:05:30 +0000
Subject: [PATCH 21/29] fix: do not allow empty compound parts

COMPOUNDMIN less than 1 is the same as 1, like in Hunspell. It allowed parts of
zero length, on which search of compounds never stopped.
---
 spylls/hunspell/readers/aff.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/readers/aff.py b/spylls/hunspell/readers/aff.py
index 9b1fb01..6ae3f7e 100644
--- a/spylls/hunspell/readers/aff.py
+++ b/spylls/hunspell/readers/aff.py
@@ -219,8 +219,10 @@ def read_value(source: BaseReader, directive: str, *values, context: Context) ->
         return value
     if directive == 'IGNORE':
         return aff.Ignore(value)
-    if directive in ['MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDMIN', 'COMPOUNDWORDMAX']:
+    if directive in ['MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDWORDMAX']:
         return int(value)
+    if directive == 'COMPOUNDMIN':
+        return max(int(value), 1)
     if directive in ['NOSUGGEST', 'KEEPCASE', 'CIRCUMFIX', 'NEEDAFFIX', 'FORBIDDENWORD', 'WARN',
                      'COMPOUNDFLAG', 'COMPOUNDBEGIN', 'COMPOUNDMIDDLE', 'COMPOUNDEND',
                      'ONLYINCOMPOUND',
-- 
2.43.0


From 7b8fe4278a137bf8ed1e3eb20b83d0562846aa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:05:33 +0000
Subject: [PATCH 22/29] fix: read FORBIDWARN directive

Aff has the attribute for it, but the reader skipped it.
---
 spylls/hunspell/readers/aff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/readers/aff.py b/spylls/hunspell/readers/aff.py
index 6ae3f7e..d108b4d 100644
--- a/spylls/hunspell/readers/aff.py
+++ b/spylls/hunspell/readers/aff.py
@@ -232,7 +232,7 @@ def read_value(source: BaseReader, directive: str, *values, context: Context) ->
         return context.parse_flag(value)
     if directive in ['COMPLEXPREFIXES', 'FULLSTRIP', 'NOSPLITSUGS', 'CHECKSHARPS',
                      'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDREP', 'CHECKCOMPOUNDTRIPLE',
-                     'SIMPLIFIEDTRIPLE', 'ONLYMAXDIFF', 'COMPOUNDMORESUFFIXES']:
+                     'SIMPLIFIEDTRIPLE', 'ONLYMAXDIFF', 'COMPOUNDMORESUFFIXES', 'FORBIDWARN']:
         # Presense of directive always means "turn it on"
         return True
     if directive == 'BREAK':
-- 
2.43.0


From b6001108291a53909e0ee5dff710d7e431f24e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:05:37 +0000
Subject: [PATCH 23/29] fix: separate flags by the first slash of the
 dictionary line

Lines with one more slash in the flags were taken for stems as a whole.
---
 spylls/hunspell/readers/dic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/readers/dic.py b/spylls/hunspell/readers/dic.py
index 1396178..3d24010 100644
--- a/spylls/hunspell/readers/dic.py
+++ b/spylls/hunspell/readers/dic.py
@@ -65,7 +65,7 @@ def read_dic(source: BaseReader, *, aff: Aff, context: Context) -> dic.Dic:
         if word.startswith('/'):
             flags = ''
         else:
-            word_with_flags = SLASH_REGEXP.split(word, 2)
+            word_with_flags = SLASH_REGEXP.split(word, 1)
             if len(word_with_flags) == 2:
                 word, flags = word_with_flags
             else:
-- 
2.43.0


From c5e5b473dbb74da55b826d3a7310a594648a7da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:06:11 +0000
Subject: [PATCH 24/29] fix: allow no more compound parts than COMPOUNDWORDMAX

The part being split was not counted, so compounds could have one part more.
---
 spylls/hunspell/algo/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index fc6988d..edf670a 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -783,7 +783,7 @@ class Lookup:
 
         # Check compounding limitation (if the rest of the word is less than 2 allowed parts, or if
         # the further compounding would produce more parts than allowed)
-        if len(word_rest) < aff.COMPOUNDMIN * 2 or (aff.COMPOUNDWORDMAX and depth >= aff.COMPOUNDWORDMAX):
+        if len(word_rest) < aff.COMPOUNDMIN * 2 or (aff.COMPOUNDWORDMAX and depth + 1 >= aff.COMPOUNDWORDMAX):
             return
 
         compoundpos = CompoundPos.MIDDLE if depth else CompoundPos.BEGIN
@@ -865,7 +865,7 @@ class Lookup:
                     yield CompoundForm([AffixForm(word_rest, word_rest)])
 
         if len(word_rest) < aff.COMPOUNDMIN * 2 or \
-                (aff.COMPOUNDWORDMAX and len(prev_parts) >= aff.COMPOUNDWORDMAX):
+                (aff.COMPOUNDWORDMAX and len(prev_parts) + 1 >= aff.COMPOUNDWORDMAX):
             return
 
         for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
-- 
2.43.0


From e77c5224ae42fdf80c83a58fd895be5d15b0787b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:06:14 +0000
Subject: [PATCH 25/29] fix: respect FORBIDDENWORD and NOSUGGEST in compounds
 made by rules

Entries with those flags were used as parts of compounds by COMPOUNDRULE, so
such words were accepted and suggested.
---
 spylls/hunspell/algo/lookup.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index edf670a..2619b4b 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -827,7 +827,7 @@ class Lookup:
                            word_rest: str,
                            prev_parts: List[data.dic.Word] = [],
                            rules: Optional[List[data.aff.CompoundRule]] = None,
-                           allow_nosuggest: bool = True) -> Iterator[CompoundForm]:  # pylint: disable=unused-argument
+                           allow_nosuggest: bool = True) -> Iterator[CompoundForm]:
         """
         Different way of producing compound words: by rules, looking like ``A*BC?CD``, where A, B, C, D
         are flags the word might have, and ``*?`` have the same meaning as in regular expressions.
@@ -853,12 +853,19 @@ class Lookup:
             # We start with all known rules
             rules = self.aff.COMPOUNDRULE
 
-        # FIXME: ignores flags like FORBIDDENWORD and nosuggest
+        # Dictionary entries that are allowed to be parts of the compound
+        def good_homonyms(text):
+            for homonym in self.dic.homonyms(text):
+                if aff.FORBIDDENWORD and aff.FORBIDDENWORD in homonym.flags:
+                    continue
+                if not allow_nosuggest and aff.NOSUGGEST and aff.NOSUGGEST in homonym.flags:
+                    continue
+                yield homonym
 
         # If it is middle of compounding process "the rest of the word is the whole last part" is always
         # possible
         if prev_parts:
-            for homonym in self.dic.homonyms(word_rest):
+            for homonym in good_homonyms(word_rest):
                 parts = [*prev_parts, homonym]
                 flag_sets = [w.flags for w in parts]
                 if any(r.fullmatch(flag_sets) for r in rules):
@@ -870,12 +877,13 @@ class Lookup:
 
         for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
             beg = word_rest[0:pos]
-            for homonym in self.dic.homonyms(beg):
+            for homonym in good_homonyms(beg):
                 parts = [*prev_parts, homonym]
                 flag_sets = [w.flags for w in parts]
                 compoundrules = [r for r in rules if r.partial_match(flag_sets)]
                 if compoundrules:
-                    for rest in self.compounds_by_rules(word_rest[pos:], rules=compoundrules, prev_parts=parts):
+                    for rest in self.compounds_by_rules(word_rest[pos:], rules=compoundrules, prev_parts=parts,
+                                                        allow_nosuggest=allow_nosuggest):
                         yield CompoundForm([AffixForm(beg, beg), *rest.parts])
 
     def is_bad_compound(self, compound: CompoundForm, captype: CapType) -> bool:
-- 
2.43.0


From b3f3f8ddbcd5b37a9dc75da079cc0413cd0632c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:06:53 +0000
Subject: [PATCH 26/29] fix: do not accept forbidden entries found by
 case-insensitive search

With "OpenOffice.org" forbidden, "OPENOFFICE.ORG" was still correct.
---
 spylls/hunspell/algo/lookup.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 2619b4b..526b163 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -377,6 +377,11 @@ class Lookup:
 
         # Just a shortcut to call (quite complicated) form validity method with all relevant params.
         def is_good_form(form, **kwarg):
+            # An entry marked as forbidden never makes the word correct, no matter how we came to it
+            # (other casing of the word, its part after breaking, or its text after ICONV).
+            if not with_forbidden and self.aff.FORBIDDENWORD and self.aff.FORBIDDENWORD in form.in_dictionary.flags:
+                return False
+
             return self.is_good_form(form, compoundpos=compoundpos,
                                      captype=captype,
                                      allow_nosuggest=allow_nosuggest,
@@ -403,11 +408,6 @@ class Lookup:
                 return
 
             for homonym in homonyms:
-                # An entry marked as forbidden never makes the word correct, no matter how we came to it
-                # (other casing of the word, its part after breaking, or its text after ICONV).
-                if not with_forbidden and self.aff.FORBIDDENWORD and self.aff.FORBIDDENWORD in homonym.flags:
-                    continue
-
                 # Now, for each possible homonym of word's stem, we check it at is a "good form"
                 # (basically, stem's flags & suffixes flags allow to be combined to each other, and
                 # also allow to be in compound word, if that's the case).
-- 
2.43.0


From 115885c499aa15430fd876b11becf427ef3fd91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:41:26 +0000
Subject: [PATCH 27/29] fix: put back the stripped part of affix literally

---
 spylls/hunspell/algo/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 526b163..bd1fa0e 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -583,7 +583,7 @@ class Lookup:
             # stem is produced by removing the suffix, and, optionally, adding the part of the
             # stem (named ``strip``). For example, suffix might be declared as ``(strip=y, add=ier)``,
             # then to restore the original stem from word "prettier" we must remove "ier" and add back "y"
-            stem = suffix.replace_regexp.sub(suffix.strip, word)
+            stem = suffix.replace_regexp.sub(lambda _: suffix.strip, word)
             # Even with matching flags, the suffix's condition still might prohibit this form
             if not suffix.cond_regexp.search(stem):
                 continue
@@ -620,7 +620,7 @@ class Lookup:
         )
 
         for prefix in possible_prefixes:
-            stem = prefix.replace_regexp.sub(prefix.strip, word)
+            stem = prefix.replace_regexp.sub(lambda _: prefix.strip, word)
 
             if not prefix.cond_regexp.search(stem):
                 continue
-- 
2.43.0


From 38b3ba8a5692949cc3723ff2e34d2a1837012239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:50:41 +0000
Subject: [PATCH 28/29] fix: read affix classes declared with no lines

---
 spylls/hunspell/readers/aff.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/readers/aff.py b/spylls/hunspell/readers/aff.py
index d108b4d..6ac0d43 100644
--- a/spylls/hunspell/readers/aff.py
+++ b/spylls/hunspell/readers/aff.py
@@ -117,7 +117,8 @@ def read_aff(source: BaseReader) -> Tuple[aff.Aff, Context]:
 
         # SFX/PFX are the only directives that have multiple entries in .aff file
         if directive in ['SFX', 'PFX']:
-            data[directive][value[0].flag] = value
+            if value:
+                data[directive][value[0].flag] = value
         else:
             data[directive] = value
 
@@ -205,7 +206,7 @@ def read_value(source: BaseReader, directive: str, *values, context: Context) ->
     value = values[0] if values else None
 
     def _read_array(count=None):
-        if not count:
+        if count is None:
             count = int(value)
 
         # TODO: handle if fetching it we'll find something NOT starting with teh expected directive name
-- 
2.43.0


From 69352ca1e0d5d3b6d6956684f2c16ecd2607b84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:11 +0000
Subject: [PATCH 29/29] fix: do not repeat morphology aliases that refer to
 each other

---
 spylls/hunspell/readers/dic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/readers/dic.py b/spylls/hunspell/readers/dic.py
index 3d24010..7a29f6a 100644
--- a/spylls/hunspell/readers/dic.py
+++ b/spylls/hunspell/readers/dic.py
@@ -161,7 +161,8 @@ def parse_data(text: str, aliases: Dict[str, List[str]]) -> Dict[str, List[str]]
             # (defined in .aff file list of data tags corresponding to some number)
             # So we just mutate the list of tags we are currently processing, so those fetched
             # by numeric alias would be handled.
-            parts.extend(aliases[tag_str])
+            # (Except for aliases already met: they might refer to each other.)
+            parts.extend([tag for tag in aliases[tag_str] if not (tag.isdigit() and tag in parts)])
         else:
             pass
 
-- 
2.43.0

